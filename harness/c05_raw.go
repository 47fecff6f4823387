//verif: prop=C05 pkg=internal/t

package t_test

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/squizzling/osmindex/internal/t"
	"github.com/squizzling/osmindex/internal/zverif/vh"
	"github.com/squizzling/osmindex/internal/zverif/vht"
)

func sameAll(a, b [][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i]) {
			return false
		}
	}
	return true
}

func TestVerif_C05_pass(tt *testing.T) {
	h := vh.Start(tt, "C05", "random blocks with infos, changesets and unusual encodings, read and rewritten under all 16 combinations of skipped sections; every skipped section is compared byte for byte with the input; non-trivial: distinct (block, flags)")
	h.Budget(8e9, 60e9)
	for h.More(500) {
		g := vh.NewGen(h)
		g.Wild = h.Intn(2) == 0
		o := g.Block()
		enc := o.Enc()
		f := h.Intn(16)
		p := t.PBReader{SkipStringTable: f&1 > 0, SkipDenseNodes: f&2 > 0, SkipWays: f&4 > 0, SkipRelations: f&8 > 0}
		h.Case(fmt.Sprintf("%+v\n%s\nencoded %x", p, o.Dump(), enc), func() string {
			in := append([]byte(nil), enc...)
			var pblk t.PrimitiveBlock
			p.ReadPrimitiveBlock(in, &pblk)
			out := pblk.Write(nil)
			if !bytes.Equal(in, enc) {
				return "the input was changed"
			}
			back, err := vh.DecOBlock(out)
			if err != nil {
				return "malformed output: " + err.Error()
			}
			if d := vh.Diff(back.Dump(), o.Dump()); d != "" {
				return d
			}
			a, _ := vh.RawSections(enc)
			b, err := vh.RawSections(out)
			if err != nil || len(a.Groups) != len(b.Groups) {
				return "groups were lost"
			}
			if p.SkipStringTable && !sameAll(a.Strings, b.Strings) {
				return "string table bytes changed"
			}
			for i := range a.Groups {
				x, y := a.Groups[i], b.Groups[i]
				if p.SkipDenseNodes && !sameAll(x.Dense, y.Dense) {
					return fmt.Sprintf("dense bytes of group %d changed", i)
				}
				if p.SkipWays && !sameAll(x.Ways, y.Ways) {
					return fmt.Sprintf("way bytes of group %d changed", i)
				}
				if p.SkipRelations && !sameAll(x.Rels, y.Rels) {
					return fmt.Sprintf("relation bytes of group %d changed", i)
				}
			}
			_ = vht.Hex
			return ""
		})
	}
}

// raw sections may hold anything, they are not looked at
func TestVerif_C05_opaque(tt *testing.T) {
	h := vh.Start(tt, "C05", "blocks whose skipped sections are random bytes, also empty; non-trivial: distinct blocks")
	h.Budget(2e9, 20e9)
	for h.More(500) {
		p := t.PBReader{SkipStringTable: true, SkipDenseNodes: true, SkipWays: true, SkipRelations: true}
		var in t.PrimitiveBlock
		in.Granularity, in.DateGranularity = 100, 1000
		if h.Intn(4) > 0 {
			in.StringTableRaw = h.Bytes(h.Size(200))
		}
		key := fmt.Sprintf("%x %v", in.StringTableRaw, in.StringTableRaw == nil)
		for n := h.Intn(4); n > 0; n-- {
			pg := &t.PrimitiveGroup{}
			if h.Intn(2) == 0 {
				pg.RawDense = h.Bytes(h.Size(200))
			}
			for k := h.Intn(4); k > 0; k-- {
				pg.RawWays = append(pg.RawWays, h.Bytes(h.Size(20000)))
			}
			for k := h.Intn(4); k > 0; k-- {
				pg.RawRelations = append(pg.RawRelations, h.Bytes(h.Size(300)))
			}
			in.PrimitiveGroup = append(in.PrimitiveGroup, pg)
			key += fmt.Sprintf(" / %x %v %x %x", pg.RawDense, pg.RawDense == nil, pg.RawWays, pg.RawRelations)
		}
		h.Case(key, func() string {
			out := in.Write(nil)
			var got t.PrimitiveBlock
			p.ReadPrimitiveBlock(out, &got)
			if !bytes.Equal(got.StringTableRaw, in.StringTableRaw) || (got.StringTableRaw == nil) != (in.StringTableRaw == nil) || len(got.PrimitiveGroup) != len(in.PrimitiveGroup) {
				return "string table or groups differ"
			}
			for i, x := range in.PrimitiveGroup {
				y := got.PrimitiveGroup[i]
				if !bytes.Equal(x.RawDense, y.RawDense) || (x.RawDense == nil) != (y.RawDense == nil) {
					return fmt.Sprintf("dense section of group %d: %x, was %x", i, y.RawDense, x.RawDense)
				}
				if !sameAll(x.RawWays, y.RawWays) || !sameAll(x.RawRelations, y.RawRelations) || y.Dense != nil || y.Ways != nil || y.Relations != nil {
					return fmt.Sprintf("sections of group %d differ", i)
				}
			}
			if out2 := got.Write(nil); !bytes.Equal(out, out2) {
				return "rewriting changes the bytes"
			}
			return ""
		})
	}
}
