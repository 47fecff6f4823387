//verif: prop=C19 pkg=internal/t
package t_test

import (
	"fmt"
	"sort"
	"testing"

	"github.com/squizzling/osmindex/internal/t"
	"github.com/squizzling/osmindex/internal/zverif/vh"
)

func TestVerif_C19_tables(tt *testing.T) {
	h := vh.Start(tt, "C19", "0-400 additions (single strings and tag sets, many repeats, the empty string, ties, arbitrary bytes); non-trivial: distinct additions")
	h.Budget(6e9, 60e9)
	for h.More(500) {
		n := h.Size(400)
		pool := []string{"", "a", "b"}
		for k := h.Intn(40); k > 0; k-- {
			pool = append(pool, h.Str())
			if h.Intn(3) == 0 {
				pool = append(pool, pool[h.Intn(len(pool))]+string(h.Bytes(1)))
			}
		}
		var adds []string
		var maps []map[string]string
		for i := 0; i < n; i++ {
			if h.Intn(3) == 0 {
				m := map[string]string{}
				for k := h.Intn(4); k > 0; k-- {
					m[pool[h.Intn(len(pool))]] = pool[h.Intn(len(pool))]
				}
				maps = append(maps, m)
			} else {
				adds = append(adds, pool[h.Intn(len(pool))])
			}
		}
		if h.Intn(6) == 0 {
			// many uses of the empty string
			for k := h.Intn(5000); k > 0; k-- {
				adds = append(adds, "")
			}
		}
		desc := fmt.Sprintf("strings %.3000q sets %.3000q", adds, maps)
		h.Case(desc, func() string {
			b := t.NewStringTableBuilder()
			count := map[string]int{}
			for _, s := range adds {
				b.AddString(s)
				count[s]++
			}
			for _, m := range maps {
				b.AddMap(m)
				for k, v := range m {
					count[k]++
					count[v]++
				}
			}
			delete(count, "")
			var want []string
			for s := range count {
				want = append(want, s)
			}
			sort.Slice(want, func(i, j int) bool {
				if count[want[i]] != count[want[j]] {
					return count[want[i]] > count[want[j]]
				}
				return want[i] < want[j]
			})
			want = append([]string{""}, want...)
			b.Finalize()
			got := b.ToStringTable().S
			if m := vh.Diff(fmt.Sprintf("%q", got), fmt.Sprintf("%q", want)); m != "" {
				return "table " + m
			}
			at := map[string]uint32{}
			for i, s := range want {
				at[s] = uint32(i)
				if g := b.GetIndex(s); g != uint32(i) {
					return fmt.Sprintf("index of %q is %d, its place is %d", s, g, i)
				}
			}
			for _, s := range []string{"never added", want[len(want)-1] + "\x01", string(h.Bytes(3))} {
				if _, ok := at[s]; !ok && vh.Panics(func() { b.GetIndex(s) }) == "" {
					return fmt.Sprintf("index of %q, which was never added, is %d", s, b.GetIndex(s))
				}
			}
			for i, m := range maps {
				if i > 60 {
					break
				}
				var ks []string
				for k := range m {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				wk, wv, wl := []uint32{}, []uint32{}, []int32{}
				for _, k := range ks {
					wk, wv = append(wk, at[k]), append(wv, at[m[k]])
					wl = append(wl, int32(at[k]), int32(at[m[k]]))
				}
				gk, gv := b.ToKeyVals(m)
				gl := b.ToKeyValLinear(m)
				if d := vh.Diff(fmt.Sprint(gk, gv, gl), fmt.Sprint(wk, wv, wl)); d != "" {
					return fmt.Sprintf("set %q: %s", m, d)
				}
			}
			return ""
		})
	}
}
