//verif: prop=C26 pkg=internal/t
package t_test

import (
	"fmt"
	"testing"

	"github.com/squizzling/osmindex/internal/t"
	"github.com/squizzling/osmindex/internal/zverif/vh"
)

func fromNodes(x t.Nodes) (o []*vh.HNode) {
	for _, n := range x {
		o = append(o, &vh.HNode{Id: int64(n.Id), Lat: n.Lat, Lon: n.Lon, Tags: n.Tags})
	}
	return
}

func fromWays(x t.Ways) (o []*vh.HWay) {
	for _, w := range x {
		y := &vh.HWay{Id: int64(w.Id), Tags: w.Tags}
		for _, r := range w.Nodes {
			y.Refs = append(y.Refs, int64(r))
		}
		o = append(o, y)
	}
	return
}

func fromRels(x t.Relations) (o []*vh.HRel) {
	for _, r := range x {
		y := &vh.HRel{Id: int64(r.Id), Tags: r.Tags, Roles: r.Roles, Mems: r.Members}
		for _, k := range r.MemberType {
			y.Types = append(y.Types, uint64(k))
		}
		o = append(o, y)
	}
	return
}

func dumpBlock(b *t.PrimitiveBlock) string {
	return vh.DumpEntities(fromNodes(b.ToNodes()), fromWays(b.ToWays()), fromRels(b.ToRelations()))
}

func tagSet(h *vh.H, empty bool) map[string]string {
	m := map[string]string{}
	if h.Intn(3) == 0 {
		return m
	}
	for k := h.Intn(5); k > 0; k-- {
		key := h.Str()
		if key == "" && !empty {
			continue
		}
		m[key] = h.Str()
	}
	return m
}

func TestVerif_C26_rebuild(tt *testing.T) {
	h := vh.Start(tt, "C26", "lists of 0-40 nodes, ways and relations (tag sets that collide, empty values, ids and positions of any size), built into a block, converted back directly and through its encoding; non-trivial: distinct lists")
	h.Budget(7e9, 80e9)
	for h.More(300) {
		var ns t.Nodes
		var ws t.Ways
		var rs t.Relations
		tagless := h.Intn(4) == 0
		for k := h.Size(40); k > 0; k-- {
			n := &t.HLNode{Id: t.NodeId(h.I64()), Lat: h.I64(), Lon: h.I64(), Tags: map[string]string{}}
			if !tagless {
				n.Tags = tagSet(h, false)
			}
			ns = append(ns, n)
		}
		for k := h.Size(20); k > 0; k-- {
			w := &t.HLWay{Id: t.WayId(h.I64()), Tags: tagSet(h, true)}
			for j := h.Size(30); j > 0; j-- {
				w.Nodes = append(w.Nodes, t.NodeId(h.I64()))
			}
			ws = append(ws, w)
		}
		for k := h.Size(20); k > 0; k-- {
			r := &t.HLRelation{Id: t.RelId(h.I64()), Tags: tagSet(h, true)}
			for j := h.Size(20); j > 0; j-- {
				r.Roles = append(r.Roles, h.Str())
				r.Members = append(r.Members, h.I64())
				r.MemberType = append(r.MemberType, h.Intn(3))
			}
			rs = append(rs, r)
		}
		var grid []*vh.HNode
		for _, n := range fromNodes(ns) {
			m := *n
			m.Lat, m.Lon = n.Lat/100*100, n.Lon/100*100
			grid = append(grid, &m)
		}
		want := vh.DumpEntities(grid, fromWays(ws), fromRels(rs))
		before := vh.DumpEntities(fromNodes(ns), fromWays(ws), fromRels(rs))
		h.Case(before, func() string {
			b := t.MakePrimitiveBlock(ns, ws, rs)
			if d := vh.Diff(dumpBlock(b), want); d != "" {
				return "converted back: " + d
			}
			enc := b.Write(nil)
			o, err := vh.DecOBlock(enc)
			if err != nil {
				return "encoded block: " + err.Error()
			}
			x, y, z, err := o.Entities()
			if err != nil {
				return "encoded block: " + err.Error()
			}
			if d := vh.Diff(vh.DumpEntities(x, y, z), want); d != "" {
				return "encoded block: " + d
			}
			var r t.PrimitiveBlock
			(&t.PBReader{}).ReadPrimitiveBlock(enc, &r)
			if d := vh.Diff(dumpBlock(&r), want); d != "" {
				return "read back: " + d
			}
			if d := vh.Diff(vh.DumpEntities(fromNodes(ns), fromWays(ws), fromRels(rs)), before); d != "" {
				return "the entities were changed: " + d
			}
			return ""
		})
	}
}

func TestVerif_C26_convert(tt *testing.T) {
	h := vh.Start(tt, "C26", "encoded blocks of any granularity, offsets, tag layout and section order, converted to entities once and twice; non-trivial: distinct blocks")
	h.Budget(5e9, 60e9)
	for h.More(300) {
		g := vh.NewGen(h)
		g.Wild = h.Intn(3) == 0
		g.MaxN = 1 + h.Intn(10)
		o := g.Block()
		h.Case(o.Dump(), func() string {
			ns, ws, rs, err := o.Entities()
			if err != nil {
				return "generator: " + err.Error()
			}
			want := vh.DumpEntities(ns, ws, rs)
			var b t.PrimitiveBlock
			(&t.PBReader{}).ReadPrimitiveBlock(o.Enc(), &b)
			for k := 0; k < 2; k++ {
				if d := vh.Diff(dumpBlock(&b), want); d != "" {
					return fmt.Sprintf("conversion %d: %s", k, d)
				}
			}
			return ""
		})
	}
}
