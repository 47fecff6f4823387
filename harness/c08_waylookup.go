//verif: prop=C08 pkg=internal/wayindex
package wayindex_test

import (
	"fmt"
	"sync"
	"testing"

	"github.com/squizzling/osmindex/internal/wayindex"
	"github.com/squizzling/osmindex/internal/zverif/vh"
)

func TestVerif_C08_lookup(t *testing.T) {
	h := vh.Start(t, "C08", "way indexes of 0-40 ways with 0-60 locations each, all alignments up to 64 bytes, every pass, ids in and around every way, hints from the lookup before, random ones and ones behind the end; with and without timing; non-trivial: distinct indexes")
	h.Budget(6e9, 90e9)
	dir := h.TempDir()
	for h.More(300) {
		ws := h.WayLocs(40)
		passes := 1 + h.Intn(4)
		shift := uint(h.Intn(7))
		var timing *float64
		if h.Intn(8) == 0 {
			f := 1.5
			timing = &f
		}
		fn := vh.Put(dir, "ways.idx", vh.EncWayIndex(ws, shift))
		h.Case(fmt.Sprintf("passes=%d shift=%d timing=%v %v", passes, shift, timing != nil, ws), func() string {
			idx := wayindex.NewWayIndex(fn, timing)
			defer idx.Close()
			want := map[int64]int{}
			ids := []int64{0, 1<<31 - 1, h.I64(), -1, 1 << 31, -1 << 63}
			for i := range ws {
				want[ws[i].ID] = i
				ids = append(ids, ws[i].ID, ws[i].ID-1, ws[i].ID+1)
			}
			for p := 0; p < passes; p++ {
				si := idx.SubIndexWithScaledPass(p, passes)
				in := map[int64]bool{}
				for _, d := range si.Ids {
					in[d.WayID()] = true
				}
				hint := 0
				for i := 0; i < len(ids)+8; i++ {
					id := ids[h.Intn(len(ids))]
					if h.Intn(4) == 0 {
						hint = h.Intn(len(si.Ids) + 3)
					}
					if h.Intn(30) == 0 {
						hint = 1<<63 - 1 - h.Intn(2)
					}
					locs, nh, ok := si.FindLocations(id, hint)
					if !in[id] {
						if ok || len(locs) != 0 {
							return fmt.Sprintf("pass %d: way %d with hint %d found with %v", p, id, hint, locs)
						}
					} else if w := ws[want[id]].Locs; !ok || fmt.Sprint(locs) != fmt.Sprint(w) {
						return fmt.Sprintf("pass %d: way %d with hint %d gives %v %v, want %v", p, id, hint, locs, ok, w)
					}
					if nh < 0 {
						return fmt.Sprintf("pass %d: way %d with hint %d hands back hint %d", p, id, hint, nh)
					}
					hint = nh
				}
			}
			return ""
		})
	}
}

func TestVerif_C08_shared(t *testing.T) {
	h := vh.Start(t, "C08", "one sub-index looked up by 8 workers at once, each with its own hint; non-trivial: distinct indexes")
	h.Budget(2e9, 30e9)
	dir := h.TempDir()
	for h.More(20) {
		ws := h.WayLocs(12)
		fn := vh.Put(dir, "ways.idx", vh.EncWayIndex(ws, 3))
		seed := h.I64()
		h.Case(fmt.Sprintf("shared by 8 workers: %v", ws), func() string {
			if len(ws) == 0 {
				return ""
			}
			idx := wayindex.NewWayIndex(fn, nil)
			defer idx.Close()
			si := idx.SubIndexWithScaledPass(0, 1)
			want := make([]string, len(ws))
			for i := range ws {
				want[i] = fmt.Sprint(ws[i].Locs)
			}
			bad := make([]string, 8)
			var wg sync.WaitGroup
			for g := range bad {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					defer func() {
						if x := recover(); x != nil {
							bad[g] = fmt.Sprint("panic: ", x)
						}
					}()
					x := uint64(seed) + uint64(g)*0x9e3779b97f4a7c15
					hint := 0
					for n := 0; n < 2000; n++ {
						x = x*6364136223846793005 + 1442695040888963407
						k := int(x>>33) % len(ws)
						locs, nh, ok := si.FindLocations(ws[k].ID, hint)
						if !ok || len(locs) != len(ws[k].Locs) || fmt.Sprint(locs) != want[k] {
							bad[g] = fmt.Sprintf("worker %d: way %d with hint %d gives %v %v, want %s", g, ws[k].ID, hint, locs, ok, want[k])
							return
						}
						hint = nh
					}
				}(g)
			}
			wg.Wait()
			for _, m := range bad {
				if m != "" {
					return m
				}
			}
			return ""
		})
	}
}
