//verif: prop=C10 pkg=internal/wayindex
package wayindex_test

import (
	"fmt"
	"testing"

	"github.com/squizzling/osmindex/internal/wayindex"
	"github.com/squizzling/osmindex/internal/zverif/vh"
)

func TestVerif_C10_passes(t *testing.T) {
	h := vh.Start(t, "C10", "way indexes of 0-40 ways, all alignments up to 64 bytes, 1 to 200 passes and more passes than location bytes; non-trivial: distinct (index, number of passes)")
	h.Budget(6e9, 90e9)
	dir := h.TempDir()
	for h.More(300) {
		ws := h.WayLocs(40)
		shift := uint(h.Intn(7))
		b := vh.EncWayIndex(ws, shift)
		total := len(b) - 16 - 8*len(ws)
		passes := 1 + h.Intn(12)
		switch h.Intn(6) {
		case 0:
			passes = 1 + h.Intn(200)
		case 1:
			passes = total + h.Intn(4)
		case 2:
			passes = len(ws) + h.Intn(3)
		}
		if passes < 1 {
			passes = 1
		}
		if passes > 3000 {
			passes = 3000
		}
		fn := vh.Put(dir, "ways.idx", b)
		h.Case(fmt.Sprintf("passes=%d shift=%d %v", passes, shift, ws), func() string {
			idx := wayindex.NewWayIndex(fn, nil)
			defer idx.Close()
			if len(idx.Ids) != len(ws) || len(idx.Loc) != total {
				return fmt.Sprintf("%d ways and %d bytes, want %d and %d", len(idx.Ids), len(idx.Loc), len(ws), total)
			}
			k := 0
			for p := 0; p < passes; p++ {
				si := idx.SubIndexWithScaledPass(p, passes)
				for _, d := range si.Ids {
					if k >= len(ws) {
						return fmt.Sprintf("pass %d offers way %d after all ways", p, d.WayID())
					}
					if d.WayID() != ws[k].ID || d != idx.Ids[k] {
						return fmt.Sprintf("pass %d offers way %d as number %d, want %d", p, d.WayID(), k, ws[k].ID)
					}
					if g, _, ok := si.FindLocations(ws[k].ID, h.Intn(4)); !ok || fmt.Sprint(g) != fmt.Sprint(ws[k].Locs) {
						return fmt.Sprintf("pass %d: way %d gives %v %v, want %v", p, ws[k].ID, g, ok, ws[k].Locs)
					}
					k++
				}
				if n := len(si.Ids); n > 0 && si.Top != si.Ids[n-1].WayID() {
					return fmt.Sprintf("pass %d: highest id %d, want %d", p, si.Top, si.Ids[n-1].WayID())
				} else if n == 0 && len(ws) > 0 {
					for q := 0; q < 3; q++ {
						id := ws[h.Intn(len(ws))].ID
						if g, _, ok := si.FindLocations(id, 0); len(g) != 0 || ok {
							return fmt.Sprintf("pass %d has no ways but finds way %d: %v", p, id, g)
						}
					}
				}
				if len(si.Loc) != total {
					return fmt.Sprintf("pass %d sees %d location bytes of %d", p, len(si.Loc), total)
				}
			}
			if k != len(ws) {
				return fmt.Sprintf("%d of %d ways offered by the %d passes", k, len(ws), passes)
			}
			return ""
		})
	}
}
