//verif: prop=C21 pkg=internal/wayindex
package wayindex_test

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/squizzling/osmindex/internal/zverif/vh"
	"github.com/squizzling/osmindex/internal/zverif/vhp"
)

// resolved is what the finished relation index must hold
func resolved(blocks []*vh.OBlock, ways map[int64][]int64) (out []int64) {
	for _, o := range blocks {
		if o == nil {
			continue
		}
		for _, g := range o.Groups {
			for _, r := range g.Rels {
				out = append(out, r.ID)
				at := len(out)
				out = append(out, 0)
				for i, m := range r.Mems {
					if r.Types[i] != 1 {
						continue
					}
					out[at]++
					l := ways[m]
					out = append(append(out, m, int64(len(l))), l...)
				}
			}
		}
	}
	return
}

func c21file(h *vh.H, ws []vh.OWayLoc, rels int) ([]vh.OBlob, []*vh.OBlock) {
	g := vh.NewGen(h)
	g.Rels = 9
	g.MaxN = rels
	bs, blocks := g.File(h.Size(5))
	for i, o := range blocks {
		if o == nil {
			continue
		}
		for _, gr := range o.Groups {
			for _, r := range gr.Rels {
				for k := range r.Mems {
					r.Mems[k] = 1 + int64(h.Intn(60))
					if len(ws) > 0 && h.Intn(4) > 0 {
						r.Mems[k] = ws[h.Intn(len(ws))].ID
					}
					if h.Intn(15) == 0 {
						r.Mems[k] = 1 + h.Int63()>>uint(1+h.Intn(60))
					}
					if r.Mems[k] <= 0 {
						r.Mems[k] = 1
					}
					if h.Intn(3) > 0 {
						r.Types[k] = 1
					}
				}
			}
		}
		bs[i].Data = o.Enc()
	}
	return bs, blocks
}

func readWords(fn string) ([]int64, string) {
	b, err := os.ReadFile(fn)
	if err != nil {
		return nil, err.Error()
	}
	if len(b)%8 != 0 {
		return nil, fmt.Sprintf("%d bytes", len(b))
	}
	var got []int64
	for ; len(b) > 0; b = b[8:] {
		got = append(got, int64(binary.LittleEndian.Uint64(b)))
	}
	return got, ""
}

func TestVerif_C21_command(t *testing.T) {
	h := vh.Start(t, "C21", "the relindex command on files of 0-5 blocks with relations over known, unknown and repeated ways, way indexes of 0-40 ways (also ways without locations and no ways at all), 8 numbers of passes each (1, up to 9, more passes than ways); non-trivial: distinct (file, index, passes)")
	h.Budget(10e9, 120e9)
	dir := h.TempDir()
	bin := vh.Tool(h, "relindex")
	for h.More(40) {
		ws := h.WayLocs(40)
		if len(ws) > 0 && ws[0].ID == 0 {
			ws = ws[1:]
		}
		ways := map[int64][]int64{}
		for _, w := range ws {
			ways[w.ID] = w.Locs
		}
		shift := uint(h.Intn(7))
		bs, blocks := c21file(h, ws, 1+h.Intn(8))
		// several numbers of passes side by side: the command takes a while to start
		var passes, workers []int
		for len(passes) < 8 {
			p := 1 + h.Intn(9)
			if len(passes) == 0 {
				p = 1
			} else if h.Intn(5) == 0 {
				p = len(ws) + 1 + h.Intn(20)
			}
			passes = append(passes, p)
			workers = append(workers, 1+h.Intn(4))
		}
		in := vh.Put(dir, "in.pbf", vh.EncFile(bs))
		vh.Put(dir, "ways.idx", vh.EncWayIndex(ws, shift))
		h.Case(fmt.Sprintf("passes=%v shift=%d ways=%v %s", passes, shift, ws, vhp.FileText(bs, blocks)), func() string {
			want := fmt.Sprint(resolved(blocks, ways))
			res := make(chan string)
			for i := range passes {
				go func(i int) {
					name := fmt.Sprintf("out%d.rel", i)
					if out, err := vh.Run(dir, bin, "-r", "0", "-i", in, "-x", "ways.idx", "-o", name, "-p", fmt.Sprint(passes[i]), "-w", fmt.Sprint(workers[i])); err != nil {
						res <- fmt.Sprintf("%d passes: %s: %s", passes[i], err, out)
						return
					}
					got, msg := readWords(filepath.Join(dir, name))
					if msg == "" {
						msg = vh.Diff(fmt.Sprint(got), want)
					}
					if msg != "" {
						msg = fmt.Sprintf("%d passes: %s", passes[i], msg)
					}
					res <- msg
				}(i)
			}
			msg := ""
			for range passes {
				if m := <-res; m != "" && (msg == "" || m < msg) {
					msg = m
				}
			}
			if msg != "" {
				return msg
			}
			left, _ := filepath.Glob(filepath.Join(dir, "*pass*"))
			for _, l := range left {
				return "left behind: " + filepath.Base(l)
			}
			return ""
		})
	}
}

// more output than one buffer holds (a million numbers)
func TestVerif_C21_large(t *testing.T) {
	h := vh.Start(t, "C21", "relations over ways of 20000-60000 locations (several million numbers of output), 1-3 passes; non-trivial: distinct (file, passes)")
	h.Budget(3e9, 40e9)
	dir := h.TempDir()
	bin := vh.Tool(h, "relindex")
	for h.More(2) {
		var ws []vh.OWayLoc
		ways := map[int64][]int64{}
		for i := 1; i <= 8; i++ {
			w := vh.OWayLoc{ID: int64(i * 3)}
			for n := 20000 + h.Intn(40000); n > 0; n-- {
				w.Locs = append(w.Locs, -1-h.Int63())
			}
			ws = append(ws, w)
			ways[w.ID] = w.Locs
		}
		o := vh.NewOBlock()
		gr := &vh.OGroup{}
		for r := 0; r < 14; r++ {
			x := &vh.ORel{ID: int64(r + 1)}
			for n := h.Intn(9); n > 0; n-- {
				x.Roles = append(x.Roles, 0)
				x.Mems = append(x.Mems, int64(1+h.Intn(26)))
				x.Types = append(x.Types, 1)
			}
			gr.Rels = append(gr.Rels, x)
		}
		o.Groups = []*vh.OGroup{gr}
		blocks := []*vh.OBlock{o}
		passes := 1 + h.Intn(3)
		in := vh.Put(dir, "in.pbf", vh.EncFile([]vh.OBlob{{Type: "OSMData", Data: o.Enc()}}))
		vh.Put(dir, "ways.idx", vh.EncWayIndex(ws, 3))
		h.Case(fmt.Sprintf("passes=%d %s", passes, o.Dump()), func() string {
			if out, err := vh.Run(dir, bin, "-r", "0", "-i", in, "-x", "ways.idx", "-o", "out.rel", "-p", fmt.Sprint(passes)); err != nil {
				return err.Error() + ": " + out
			}
			got, msg := readWords(filepath.Join(dir, "out.rel"))
			if msg != "" {
				return msg
			}
			want := resolved(blocks, ways)
			if len(got) != len(want) {
				return fmt.Sprintf("%d numbers, want %d", len(got), len(want))
			}
			for i := range got {
				if got[i] != want[i] {
					return fmt.Sprintf("number %d is %d, want %d", i, got[i], want[i])
				}
			}
			return ""
		})
	}
}
