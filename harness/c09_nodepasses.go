//verif: prop=C09 pkg=internal/nodeindex
package nodeindex_test

import (
	"fmt"
	"testing"

	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/zverif/vh"
)

func TestVerif_C09_passes(t *testing.T) {
	h := vh.Start(t, "C09", "node indexes of 0-40 ranges, 1 to 200 passes and more passes than locations; non-trivial: distinct (index, number of passes)")
	h.Budget(6e9, 90e9)
	dir := h.TempDir()
	for h.More(300) {
		rs := h.Ranges(40)
		total := 0
		for i := range rs {
			total += len(rs[i].Locs)
		}
		passes := uint64(1 + h.Intn(12))
		switch h.Intn(6) {
		case 0:
			passes = uint64(1 + h.Intn(200))
		case 1:
			passes = uint64(total + h.Intn(4))
		case 2:
			passes = uint64(len(rs) + h.Intn(3))
		}
		if passes == 0 {
			passes = 1
		}
		fn := vh.Put(dir, "nodes.idx", vh.EncNodeIndex(rs))
		h.Case(fmt.Sprintf("passes=%d %s", passes, vh.DumpRanges(rs)), func() string {
			idx := nodeindex.NewNodeIndex(fn, nil)
			defer idx.Close()
			if idx.LocationCount() != uint64(total) {
				return fmt.Sprintf("%d locations, want %d", idx.LocationCount(), total)
			}
			k := 0
			off := uint64(0)
			for p := uint64(0); p < passes; p++ {
				si := idx.SubIndex(p, passes)
				for i := 0; i < si.ElementCount(); i++ {
					e := si.Element(i)
					if k >= len(rs) {
						return fmt.Sprintf("pass %d offers %d-%d after all entries", p, e.FirstID(), e.LastID())
					}
					if e.FirstID() != rs[k].First || e.Count() != uint64(len(rs[k].Locs)) || e.Offset() != off || e.LastID() != rs[k].Last() {
						return fmt.Sprintf("pass %d offers %d-%d at slot %d as entry %d, want %d-%d at slot %d", p, e.FirstID(), e.LastID(), e.Offset(), k, rs[k].First, rs[k].Last(), off)
					}
					for j, l := range rs[k].Locs {
						if g := si.Location(off + uint64(j)); g != l {
							return fmt.Sprintf("pass %d: location %d is %d, want %d", p, off+uint64(j), g, l)
						}
						if l != 0 && (j < 3 || j+3 >= len(rs[k].Locs)) {
							if g, _, ok := si.FindNode(e.FirstID()+uint64(j), h.Intn(4)); g != l || !ok {
								return fmt.Sprintf("pass %d: id %d gives %d %v, want %d", p, e.FirstID()+uint64(j), g, ok, l)
							}
						}
					}
					off += uint64(len(rs[k].Locs))
					k++
				}
				if n := si.ElementCount(); n > 0 && si.Top != si.Element(n-1).LastID() {
					return fmt.Sprintf("pass %d: highest id %d, want %d", p, si.Top, si.Element(n-1).LastID())
				} else if n == 0 {
					for i := range rs {
						for _, id := range []uint64{rs[i].First, rs[i].Last()} {
							if g, _, ok := si.FindNode(id, 0); g != 0 || ok {
								return fmt.Sprintf("pass %d has no entries but finds %d at %d", p, id, g)
							}
						}
					}
				}
				// every pass sees all locations
				if total > 0 {
					j := uint64(h.Intn(total))
					o := uint64(0)
					for i := range rs {
						if j < o+uint64(len(rs[i].Locs)) {
							if si.Location(j) != rs[i].Locs[j-o] {
								return fmt.Sprintf("pass %d: location %d is %d", p, j, si.Location(j))
							}
							break
						}
						o += uint64(len(rs[i].Locs))
					}
				}
			}
			if k != len(rs) {
				return fmt.Sprintf("%d of %d entries offered by the %d passes", k, len(rs), passes)
			}
			return ""
		})
	}
}
