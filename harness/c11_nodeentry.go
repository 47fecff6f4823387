//verif: prop=C11 pkg=internal/nodeindex
package nodeindex_test

import (
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/zverif/vh"
)

func TestVerif_C11_countOffset(t *testing.T) {
	h := vh.Start(t, "C11", "counts and offsets of all magnitudes, most near 2^24 and 2^40; non-trivial: distinct pairs")
	h.Budget(2e9, 30e9)
	near := func(bits uint) uint64 {
		switch h.Intn(3) {
		case 0:
			return uint64(1)<<bits + uint64(h.Intn(5)) - 2
		case 1:
			return h.U64() & (1<<bits - 1)
		}
		return h.U64()
	}
	for h.More(5000) {
		c, o := near(24), near(40)
		h.Case(fmt.Sprintf("count=%d offset=%d", c, o), func() string {
			var co nodeindex.CountOffset
			p := vh.Panics(func() { co = nodeindex.NewCountOffset(c, o) })
			if ok := c < 1<<24 && o < 1<<40; !ok {
				if p == "" {
					return fmt.Sprintf("accepted as count %d offset %d", co.Count(), co.Offset())
				}
				return ""
			} else if p != "" {
				return "refused: " + p
			}
			if co.Count() != c || co.Offset() != o || uint64(co) != o<<24|c {
				return fmt.Sprintf("%#x: count %d offset %d", uint64(co), co.Count(), co.Offset())
			}
			return ""
		})
	}
}

// elements are read back through an index file, the only way to make one
func TestVerif_C11_elements(t *testing.T) {
	h := vh.Start(t, "C11", "node index entries with start ids up to 2^63, counts up to 2^24-1, any offset, and ids in and around them; non-trivial: distinct entries")
	h.Budget(3e9, 40e9)
	dir := h.TempDir()
	for h.More(500) {
		first := h.U64() >> 1
		cnt := h.U64()&(1<<24-1) | 1
		off := h.U64() & (1<<40 - 1)
		b := make([]byte, 40)
		for i, v := range []uint64{1, 1, first, off<<24 | cnt, 0} {
			binary.LittleEndian.PutUint64(b[8*i:], v)
		}
		fn := vh.Put(dir, "one.idx", b)
		ids := []uint64{first, first - 1, first + 1, first + cnt - 1, first + cnt, first + cnt/2, 0, ^uint64(0), h.U64()}
		h.Case(fmt.Sprintf("first=%d count=%d offset=%d", first, cnt, off), func() string {
			idx := nodeindex.NewNodeIndex(fn, nil)
			defer idx.Close()
			e := idx.SubIndex(0, 1).Element(0)
			if e.FirstID() != first || e.LastID() != first+cnt-1 || e.Count() != cnt || e.Offset() != off {
				return fmt.Sprintf("first %d last %d count %d offset %d", e.FirstID(), e.LastID(), e.Count(), e.Offset())
			}
			for _, id := range ids {
				in := id >= first && id-first < cnt
				var s uint64
				p := vh.Panics(func() { s = e.OffsetForID(id) })
				if in && (p != "" || s != off+id-first) {
					return fmt.Sprintf("id %d: slot %d %s, want %d", id, s, p, off+id-first)
				}
				if !in && p == "" {
					return fmt.Sprintf("id %d: slot %d, but the entry does not contain it", id, s)
				}
			}
			return ""
		})
	}
}
