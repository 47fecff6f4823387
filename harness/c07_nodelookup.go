//verif: prop=C07 pkg=internal/nodeindex
package nodeindex_test

import (
	"fmt"
	"sync"
	"testing"

	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/zverif/vh"
)

func TestVerif_C07_lookup(t *testing.T) {
	h := vh.Start(t, "C07", "node indexes of 0-40 ranges (ids up to 2^63, gaps), every pass of a random number of passes, ids in and around every range in random order, hints from the lookup before, random ones and ones behind the end; with and without timing; non-trivial: distinct indexes")
	h.Budget(6e9, 90e9)
	dir := h.TempDir()
	for h.More(300) {
		rs := h.Ranges(40)
		passes := uint64(1 + h.Intn(4))
		var timing *float64
		if h.Intn(8) == 0 {
			f := 1.5
			timing = &f
		}
		fn := vh.Put(dir, "nodes.idx", vh.EncNodeIndex(rs))
		h.Case(fmt.Sprintf("passes=%d timing=%v %s", passes, timing != nil, vh.DumpRanges(rs)), func() string {
			idx := nodeindex.NewNodeIndex(fn, timing)
			defer idx.Close()
			// every id of interest and its location
			want := map[uint64]int64{}
			var ids []uint64
			add := func(id uint64) { ids = append(ids, id) }
			add(0)
			add(^uint64(0))
			add(h.U64())
			for i := range rs {
				r := &rs[i]
				for k, l := range r.Locs {
					want[r.First+uint64(k)] = l
				}
				for _, d := range []uint64{0, 1, 2} {
					add(r.First + d)
					add(r.First - d)
					add(r.Last() + d)
					add(r.Last() - d)
				}
				add(r.First + uint64(h.Intn(len(r.Locs))))
			}
			for p := uint64(0); p < passes; p++ {
				si := idx.SubIndex(p, passes)
				n := si.ElementCount()
				in := func(id uint64) bool {
					for i := 0; i < n; i++ {
						e := si.Element(i)
						if e.FirstID() <= id && id <= e.LastID() {
							return true
						}
					}
					return false
				}
				hint := 0
				for i := 0; i < len(ids)+8; i++ {
					id := ids[h.Intn(len(ids))]
					if h.Intn(4) == 0 {
						hint = h.Intn(n + 3)
					}
					if h.Intn(30) == 0 {
						hint = 1<<63 - 1 - h.Intn(2)
					}
					loc, nh, ok := si.FindNode(id, hint)
					w, wok := int64(0), false
					if id <= si.Top && in(id) {
						w = want[id]
						wok = w != 0
					}
					if loc != w || ok != wok {
						return fmt.Sprintf("pass %d: id %d with hint %d gives %d %v, want %d %v (highest id of the pass %d)", p, id, hint, loc, ok, w, wok, si.Top)
					}
					if nh < 0 {
						return fmt.Sprintf("pass %d: id %d with hint %d hands back hint %d", p, id, hint, nh)
					}
					hint = nh
				}
			}
			return ""
		})
	}
}

func TestVerif_C07_shared(t *testing.T) {
	h := vh.Start(t, "C07", "one sub-index looked up by 8 workers at once, each with its own hint; non-trivial: distinct indexes")
	h.Budget(2e9, 30e9)
	dir := h.TempDir()
	for h.More(20) {
		rs := h.Ranges(12)
		fn := vh.Put(dir, "nodes.idx", vh.EncNodeIndex(rs))
		seed := h.U64()
		h.Case("shared by 8 workers: "+vh.DumpRanges(rs), func() string {
			idx := nodeindex.NewNodeIndex(fn, nil)
			defer idx.Close()
			si := idx.SubIndex(0, 1)
			var ids []uint64
			want := map[uint64]int64{}
			for i := range rs {
				for k, l := range rs[i].Locs {
					want[rs[i].First+uint64(k)] = l
				}
				for _, id := range []uint64{rs[i].First - 1, rs[i].First, rs[i].Last(), rs[i].Last() + 1, rs[i].First + uint64(len(rs[i].Locs)/2)} {
					ids = append(ids, id)
				}
			}
			if len(ids) == 0 {
				return ""
			}
			bad := make([]string, 8)
			var wg sync.WaitGroup
			for g := range bad {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					defer func() {
						if x := recover(); x != nil {
							bad[g] = fmt.Sprint("panic: ", x)
						}
					}()
					x := seed + uint64(g)*0x9e3779b97f4a7c15
					hint := 0
					for n := 0; n < 20000; n++ {
						x = x*6364136223846793005 + 1442695040888963407
						id := ids[int(x>>33)%len(ids)]
						loc, nh, ok := si.FindNode(id, hint)
						w := want[id]
						if id > si.Top {
							w = 0
						}
						if loc != w || ok != (w != 0) {
							bad[g] = fmt.Sprintf("worker %d: id %d with hint %d gives %d %v, want %d", g, id, hint, loc, ok, w)
							return
						}
						hint = nh
					}
				}(g)
			}
			wg.Wait()
			for _, m := range bad {
				if m != "" {
					return m
				}
			}
			return ""
		})
	}
}
