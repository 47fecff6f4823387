//verif: prop=C15 pkg=internal/pbf
package pbf_test

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/edsrzf/mmap-go"

	"github.com/squizzling/osmindex/internal/pbf"
	"github.com/squizzling/osmindex/internal/zverif/vh"
	"github.com/squizzling/osmindex/internal/zverif/vhp"
)

type item struct {
	index uint64
	typ   string
	data  []byte
}

func split(fn string, workers int) (out []item) {
	var mu sync.Mutex
	vhp.Process(fn, func(ctx context.Context, in <-chan pbf.Block, _ chan<- pbf.Block) {
		for b := range in {
			mu.Lock()
			out = append(out, item{b.Index, b.BlobType, append([]byte(nil), b.Data.(mmap.MMap)...)})
			mu.Unlock()
		}
	}, nil, workers)
	sort.SliceStable(out, func(i, j int) bool { return out[i].index < out[j].index })
	return
}

// frame with header fields in any order, an unknown-to-us index, and any body
func randFrame(h *vh.H) (typ string, body, frame []byte) {
	typ = []string{"OSMData", "OSMHeader"}[h.Intn(2)]
	body = h.Bytes(h.Size(300))
	switch h.Intn(12) {
	case 0:
		body = h.Bytes(2000 + h.Intn(100000))
	case 1:
		body = vh.Frame("OSMData", body)
	}
	frame = vh.Frame(typ, body)
	if h.Intn(2) == 0 {
		// the same header with its fields the other way round, and index data
		f1 := append([]byte{1<<3 | 2, byte(len(typ))}, typ...)
		var f3 []byte
		f3 = append(f3, 3<<3)
		for v := uint64(len(body)); ; v >>= 7 {
			if v < 128 {
				f3 = append(f3, byte(v))
				break
			}
			f3 = append(f3, byte(v)|128)
		}
		hd := append(append([]byte(nil), f3...), f1...)
		switch h.Intn(30) { // long headers: the last of several types counts
		case 0:
			hd = append(bytes.Repeat(f1, 20+h.Intn(20)), hd...)
		case 1:
			hd = append(bytes.Repeat(f1, (65536+h.Intn(2000))/len(f1)), hd...)
		}
		frame = append(append([]byte{0, byte(len(hd) >> 16), byte(len(hd) >> 8), byte(len(hd))}, hd...), body...)
	}
	return
}

func TestVerif_C15_split(t *testing.T) {
	h := vh.Start(t, "C15", "files of 0-60 blocks with bodies of 0-100000 arbitrary bytes (also bodies that look like blocks), header fields in both orders, 1-8 workers; non-trivial: distinct files")
	h.Budget(6e9, 80e9)
	dir := h.TempDir()
	for h.More(200) {
		n := h.Size(60)
		var want []item
		var file []byte
		desc := ""
		for i := 0; i < n; i++ {
			typ, body, fr := randFrame(h)
			want = append(want, item{uint64(i), typ, body})
			file = append(file, fr...)
			if len(body) < 40 {
				desc += fmt.Sprintf(" %s:%x", typ, body)
			} else {
				desc += fmt.Sprintf(" %s:%d bytes", typ, len(body))
			}
		}
		workers := 1 + h.Intn(8)
		fn := vh.Put(dir, "in.pbf", file)
		h.Case(fmt.Sprintf("workers=%d file of %d bytes:%s", workers, len(file), desc), func() string {
			got := split(fn, workers)
			if len(got) != len(want) {
				return fmt.Sprintf("%d work items, want %d", len(got), len(want))
			}
			for i := range want {
				if got[i].index != want[i].index || got[i].typ != want[i].typ || !bytes.Equal(got[i].data, want[i].data) {
					return fmt.Sprintf("item %d: index %d type %s %d bytes, want index %d type %s %d bytes", i, got[i].index, got[i].typ, len(got[i].data), want[i].index, want[i].typ, len(want[i].data))
				}
			}
			return ""
		})
	}
}

func TestVerif_C15_order(t *testing.T) {
	h := vh.Start(t, "C15", "one worker: the items arrive numbered in file order; non-trivial: distinct files")
	h.Budget(1e9, 10e9)
	dir := h.TempDir()
	for h.More(50) {
		n := h.Size(60)
		var file []byte
		for i := 0; i < n; i++ {
			_, _, fr := randFrame(h)
			file = append(file, fr...)
		}
		fn := vh.Put(dir, "in.pbf", file)
		h.Case(fmt.Sprintf("%d blocks, %d bytes", n, len(file)), func() string {
			next := uint64(0)
			bad := ""
			vhp.Process(fn, func(ctx context.Context, in <-chan pbf.Block, _ chan<- pbf.Block) {
				for b := range in {
					if b.Index != next && bad == "" {
						bad = fmt.Sprintf("item %d has number %d", next, b.Index)
					}
					next++
				}
			}, nil, 1)
			if bad == "" && next != uint64(n) {
				bad = fmt.Sprintf("%d items", next)
			}
			return bad
		})
	}
}

func TestVerif_C15_large(t *testing.T) {
	h := vh.Start(t, "C15", "a file of 70000 small blocks, and a file with a block of 17 MB between two small ones; non-trivial: distinct files")
	h.Budget(1e9, 4e9)
	dir := h.TempDir()
	var file []byte
	for i := 0; i < 70000; i++ {
		file = append(file, vh.Frame("OSMData", []byte{byte(i), byte(i >> 8), byte(i >> 16)})...)
	}
	fn := vh.Put(dir, "many.pbf", file)
	h.Case("70000 blocks of 3 bytes", func() string {
		got := split(fn, 4)
		if len(got) != 70000 {
			return fmt.Sprintf("%d work items", len(got))
		}
		for i, g := range got {
			if g.index != uint64(i) || !bytes.Equal(g.data, []byte{byte(i), byte(i >> 8), byte(i >> 16)}) {
				return fmt.Sprintf("item %d: number %d, data %x", i, g.index, g.data)
			}
		}
		return ""
	})
	big := bytes.Repeat([]byte{0, 0, 0, 13, 10, 7}, 3000000)
	file = append(append(vh.Frame("OSMHeader", []byte("ab")), vh.Frame("OSMData", big)...), vh.Frame("OSMData", []byte("cd"))...)
	fn = vh.Put(dir, "big.pbf", file)
	h.Case("a block of 18000000 bytes between two of 2", func() string {
		got := split(fn, 2)
		if len(got) != 3 || !bytes.Equal(got[0].data, []byte("ab")) || !bytes.Equal(got[1].data, big) || !bytes.Equal(got[2].data, []byte("cd")) {
			return fmt.Sprintf("%d work items, or other data", len(got))
		}
		return ""
	})
	os.Remove(fn)
}

func TestZChildType(t *testing.T) {
	if !vhp.IsChild() {
		t.Skip()
	}
	split(os.Getenv("Z_FILE"), 2)
	fmt.Println("ENDED")
}

func TestVerif_C15_unknownType(t *testing.T) {
	h := vh.Start(t, "C15", "files with one block of another type (empty, near misses, random) at any place: the program stops with a failure; non-trivial: distinct (type, place)")
	h.Budget(2e9, 20e9)
	dir := h.TempDir()
	for h.More(8) {
		typ := []string{"", "OSMDat", "OSMDataX", "osmdata", "OSMheader", "OSMHeade", "Filler", "IndexData", "RelationData", string(h.Bytes(1 + h.Intn(8)))}[h.Intn(10)]
		n := 1 + h.Intn(6)
		at := h.Intn(n)
		var file []byte
		for i := 0; i < n; i++ {
			if i == at {
				file = append(file, vh.Frame(typ, h.Bytes(h.Intn(20)))...)
			} else {
				_, _, fr := randFrame(h)
				file = append(file, fr...)
			}
		}
		fn := vh.Put(dir, "in.pbf", file)
		h.Case(fmt.Sprintf("type %q as block %d of %d", typ, at, n), func() string {
			out, failed := vhp.Child("TestZChildType", "Z_FILE="+fn)
			if !failed || strings.Contains(out, "ENDED") {
				return "the program ends normally: " + out
			}
			return ""
		})
	}
}
