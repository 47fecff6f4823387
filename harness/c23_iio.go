//verif: prop=C23 pkg=internal/iio
package iio_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"testing"
	"time"

	"github.com/squizzling/osmindex/internal/iio"
	"github.com/squizzling/osmindex/internal/zverif/vh"
)

func TestVerif_C23_files(t *testing.T) {
	h := vh.Start(t, "C23", "sequences of 1-12 writes of 0-200000 bytes and of sizes around powers of two up to 3 MiB, number lists, seeks and copies against a byte model of the file; non-trivial: distinct sequences")
	h.Budget(5e9, 60e9)
	dir := h.TempDir()
	for h.More(200) {
		type op struct {
			kind int
			b    []byte
			n    int
		}
		var ops []op
		desc := ""
		for k := 1 + h.Intn(12); k > 0; k-- {
			n := h.Size(2000)
			if h.Intn(12) == 0 {
				n = h.Intn(200000)
			}
			buf := 1 + h.Intn(5000)
			if h.Intn(6) == 0 { // around multiples of powers of two
				if n = (1 + h.Intn(3)) << uint(6+h.Intn(16)); n > 3<<20 {
					n = 1 << 20
				}
				n += h.Intn(3) - 1
				buf = 1 << uint(10+h.Intn(12))
			}
			o := op{h.Intn(6), h.Bytes(n), buf}
			ops = append(ops, o)
			desc += fmt.Sprintf(" %d:%d/%d", o.kind, n, o.n)
		}
		h.Case("operations (kind:bytes/buffer)"+desc, func() string {
			fn := filepath.Join(dir, "out")
			f := iio.OsCreate(fn)
			var want []byte
			put := func(at int, b []byte) int {
				for len(want) < at+len(b) {
					want = append(want, 0)
				}
				copy(want[at:], b)
				return at + len(b)
			}
			pos := 0
			for _, o := range ops {
				switch o.kind {
				case 0, 1:
					iio.FWrite(f, o.b)
					pos = put(pos, o.b)
				case 2:
					var xs []int64
					var us []uint64
					for i := 0; i+8 <= len(o.b); i += 8 {
						xs = append(xs, int64(binary.LittleEndian.Uint64(o.b[i:])))
						us = append(us, uint64(xs[len(xs)-1]))
					}
					if o.n%2 == 0 {
						iio.FWriteSliceI64(f, xs)
					} else {
						iio.FWriteSliceU64(f, us)
					}
					pos = put(pos, o.b[:len(o.b)/8*8])
				case 3:
					to := 0
					if len(want) > 0 {
						to = o.n % len(want)
					}
					if g := iio.FSeek(f, int64(to), io.SeekStart); g != int64(to) {
						return fmt.Sprintf("seek to %d gives %d", to, g)
					}
					pos = to
				default:
					src := vh.WriteFile(filepath.Join(dir, "src"), o.b)
					sf := iio.OsOpen(src)
					buf := make([]byte, o.n)
					sum := 0
					for {
						n := iio.FCopy(f, sf, buf)
						if n == 0 {
							break
						}
						if sum+n > len(o.b) || !bytes.Equal(buf[:n], o.b[sum:sum+n]) {
							return fmt.Sprintf("copy gives %d bytes at %d of %d", n, sum, len(o.b))
						}
						sum += n
						if sum > len(o.b) {
							return "copied more than the source holds"
						}
					}
					if sum != len(o.b) {
						return fmt.Sprintf("copied %d of %d bytes", sum, len(o.b))
					}
					iio.FClose(sf)
					pos = put(pos, o.b)
				}
			}
			iio.FClose(f)
			got, err := os.ReadFile(fn)
			if err != nil {
				return err.Error()
			}
			if !bytes.Equal(got, want) {
				i := 0
				for i < len(got) && i < len(want) && got[i] == want[i] {
					i++
				}
				return fmt.Sprintf("the file has %d bytes, want %d; first difference at %d", len(got), len(want), i)
			}
			return ""
		})
	}
}

// the other end of a pipe takes the bytes in small pieces
func TestVerif_C23_pipes(t *testing.T) {
	h := vh.Start(t, "C23", "writes of up to 400000 bytes into a pipe that is emptied in small pieces; non-trivial: distinct sizes")
	h.Budget(2e9, 20e9)
	for h.More(20) {
		b := h.Bytes(h.Intn(400000) / 8 * 8)
		piece := 1 + h.Intn(30000)
		asList := h.Intn(2) == 0
		h.Case(fmt.Sprintf("%d bytes in pieces of %d list=%v", len(b), piece, asList), func() string {
			r, w, err := os.Pipe()
			if err != nil {
				return ""
			}
			done := make(chan []byte)
			go func() {
				var got []byte
				buf := make([]byte, piece)
				for {
					n, err := r.Read(buf)
					got = append(got, buf[:n]...)
					if err != nil {
						break
					}
				}
				done <- got
			}()
			if asList {
				var xs []int64
				for i := 0; i+8 <= len(b); i += 8 {
					xs = append(xs, int64(binary.LittleEndian.Uint64(b[i:])))
				}
				iio.FWriteSliceI64(w, xs)
			} else {
				iio.FWrite(w, b)
			}
			w.Close()
			select {
			case got := <-done:
				if !bytes.Equal(got, b) {
					return fmt.Sprintf("%d bytes arrive of %d, or other ones", len(got), len(b))
				}
			case <-time.After(20 * time.Second):
				return "the writer does not finish"
			}
			r.Close()
			return ""
		})
	}
}

func TestVerif_C23_errors(t *testing.T) {
	h := vh.Start(t, "C23", "writes, copies, seeks and closes that fail (closed file, read-only file, full device, missing file): refused; non-trivial: distinct (operation, failure)")
	h.Budget(1e9, 5e9)
	dir := h.TempDir()
	vh.Put(dir, "x", []byte("some content"))
	open := map[string]func() *os.File{
		"closed": func() *os.File {
			f, _ := os.Create(filepath.Join(dir, "c"))
			f.Close()
			return f
		},
		"read-only": func() *os.File {
			f, _ := os.Open(filepath.Join(dir, "x"))
			return f
		},
		"full": func() *os.File {
			f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
			if err != nil {
				return nil
			}
			return f
		},
	}
	ops := map[string]func(f *os.File){
		"FWrite":         func(f *os.File) { iio.FWrite(f, []byte("abc")) },
		"FWriteSliceI64": func(f *os.File) { iio.FWriteSliceI64(f, []int64{1, 2}) },
		"FWriteSliceU64": func(f *os.File) { iio.FWriteSliceU64(f, []uint64{1}) },
		"FCopy": func(f *os.File) {
			s, _ := os.Open(filepath.Join(dir, "x"))
			defer s.Close()
			iio.FCopy(f, s, make([]byte, 5))
		},
	}
	for _, fk := range []string{"closed", "read-only", "full"} {
		for _, ok := range []string{"FWrite", "FWriteSliceI64", "FWriteSliceU64", "FCopy"} {
			h.Case(ok+" on a "+fk+" file", func() string {
				f := open[fk]()
				if f == nil {
					return ""
				}
				defer f.Close()
				if vh.Panics(func() { ops[ok](f) }) == "" {
					return "goes on as if the bytes were written"
				}
				return ""
			})
		}
	}
	h.Case("reading, seeking and closing a closed file, opening a missing one", func() string {
		c := open["closed"]()
		for name, f := range map[string]func(){
			"read":   func() { iio.FRead(c, make([]byte, 3)) },
			"seek":   func() { iio.FSeek(c, 0, 0) },
			"close":  func() { iio.FClose(c) },
			"open":   func() { iio.OsOpen(filepath.Join(dir, "missing")) },
			"create": func() { iio.OsCreate(filepath.Join(dir, "missing", "y")) },
			"remove": func() { iio.OsRemove(filepath.Join(dir, "missing")) },
			"copy":   func() { iio.FCopy(open["read-only"](), c, make([]byte, 4)) },
		} {
			if vh.Panics(f) == "" {
				return name + " does not report the failure"
			}
		}
		return ""
	})
}

// an index whose writing fails part way never has a finished header
func TestVerif_C23_header(t *testing.T) {
	h := vh.Start(t, "C23", "the nodeindex and wayindex commands with a file size limit anywhere in the output: the command fails and the header is not there; non-trivial: distinct (file, limit)")
	h.Budget(3e9, 30e9)
	dir := h.TempDir()
	bins := map[string]string{"nodeindex": vh.Tool(h, "nodeindex"), "wayindex": vh.Tool(h, "wayindex")}
	for k := 0; k < 6 || h.More(12); k++ {
		o := vh.NewOBlock()
		d, gr := &vh.ODense{}, &vh.OGroup{}
		for i := 0; i < 900; i++ {
			d.Id = append(d.Id, int64(1+i*(3+k%2)))
			d.Lat, d.Lon = append(d.Lat, int64(h.Intn(1000))), append(d.Lon, int64(h.Intn(1000)))
			w := &vh.OWay{ID: int64(1 + i)}
			for j := h.Intn(5); j > 0; j-- {
				w.Refs = append(w.Refs, -h.Int63())
			}
			gr.Ways = append(gr.Ways, w)
		}
		gr.Dense = d
		o.Groups = []*vh.OGroup{gr}
		in := vh.Put(dir, "in.pbf", vh.EncFile([]vh.OBlob{{Type: "OSMData", Data: o.Enc()}}))
		tool := []string{"nodeindex", "wayindex"}[k%2]
		os.Remove(filepath.Join(dir, "out.idx"))
		os.Remove(filepath.Join(dir, "out.idx.loc.tmp"))
		full := 0
		run := func(limit int) (string, error) {
			return vh.Run(dir, "/bin/bash", "-c", fmt.Sprintf("ulimit -f %d; exec %s -r 0 -i %s -o out.idx", limit, bins[tool], in))
		}
		if _, err := vh.Run(dir, bins[tool], "-r", "0", "-i", in, "-o", "out.idx"); err == nil {
			if fi, err := os.Stat(filepath.Join(dir, "out.idx")); err == nil {
				full = int(fi.Size())
			}
		}
		os.Remove(filepath.Join(dir, "out.idx"))
		limit := 1 + h.Intn(full/1024)
		if k%3 == 0 && full > 4096 {
			limit = full/1024 - h.Intn(3)
		}
		h.Case(fmt.Sprintf("%s output of %d bytes, limit %d KB", tool, full, limit), func() string {
			if full <= limit*1024 {
				return ""
			}
			out, err := run(limit)
			if err == nil {
				return "the command ends normally: " + out
			}
			b, e := os.ReadFile(filepath.Join(dir, "out.idx"))
			if e == nil && len(b) >= 16 && !bytes.Equal(b[:16], make([]byte, 16)) {
				return fmt.Sprintf("the unfinished index of %d bytes has header %x", len(b), b[:16])
			}
			return ""
		})
	}
}
