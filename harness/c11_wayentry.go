//verif: prop=C11 pkg=internal/wayindex
package wayindex_test

import (
	"fmt"
	"testing"

	"github.com/squizzling/osmindex/internal/wayindex"
	"github.com/squizzling/osmindex/internal/zverif/vh"
)

func TestVerif_C11_wayEntries(t *testing.T) {
	h := vh.Start(t, "C11", "way ids and offsets of all magnitudes and signs, most near 2^31 and 2^33; non-trivial: distinct pairs")
	h.Budget(2e9, 30e9)
	near := func(bits uint) int64 {
		switch h.Intn(4) {
		case 0:
			return int64(1)<<bits + int64(h.Intn(5)) - 2
		case 1:
			return h.I64() & (1<<bits - 1)
		case 2:
			return -int64(h.Intn(3))
		}
		return h.I64()
	}
	for h.More(5000) {
		w, o := near(31), near(33)
		h.Case(fmt.Sprintf("way=%d offset=%d", w, o), func() string {
			var d wayindex.WayIndexData
			p := vh.Panics(func() { d = wayindex.MakeIndexData(w, o) })
			if ok := w >= 0 && w < 1<<31 && o >= 0 && o < 1<<33; !ok {
				if p == "" {
					return fmt.Sprintf("accepted as way %d offset %d", d.WayID(), d.Offset())
				}
				return ""
			} else if p != "" {
				return "refused: " + p
			}
			if d.WayID() != w || d.Offset() != o || uint64(d) != uint64(w)<<33|uint64(o) {
				return fmt.Sprintf("%#x: way %d offset %d", uint64(d), d.WayID(), d.Offset())
			}
			return ""
		})
	}
}
