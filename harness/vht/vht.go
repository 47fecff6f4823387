// Package vht connects the independent model with the code's own types.
package vht

import (
	"fmt"

	"github.com/squizzling/osmindex/internal/t"
	"github.com/squizzling/osmindex/internal/zverif/vh"
)

// ToT is the code's form of a block of the model.
func ToT(o *vh.OBlock) *t.PrimitiveBlock {
	p := &t.PrimitiveBlock{Granularity: o.Gran, DateGranularity: o.DateGran, LatOffset: o.LatOff, LonOffset: o.LonOff}
	if !o.NoStrings {
		p.StringTable = &t.StringTable{S: append([]string(nil), o.Strings...)}
	}
	for _, g := range o.Groups {
		pg := &t.PrimitiveGroup{}
		if d := g.Dense; d != nil {
			pg.Dense = &t.DenseNodes{Id: d.Id, Lat: d.Lat, Lon: d.Lon, KeyVals: d.KV}
		}
		for _, w := range g.Ways {
			pg.Ways = append(pg.Ways, &t.Way{ID: t.WayId(w.ID), Keys: w.Keys, Vals: w.Vals, Refs: w.Refs})
		}
		for _, r := range g.Rels {
			pg.Relations = append(pg.Relations, &t.Relation{ID: t.RelId(r.ID), Keys: r.Keys, Vals: r.Vals, RolesSID: r.Roles, MemIDs: r.Mems, MemberType: r.Types})
		}
		p.PrimitiveGroup = append(p.PrimitiveGroup, pg)
	}
	return p
}

// FromT is the model of a fully decoded block.
func FromT(p *t.PrimitiveBlock) *vh.OBlock {
	o := &vh.OBlock{Gran: p.Granularity, DateGran: p.DateGranularity, LatOff: p.LatOffset, LonOff: p.LonOffset, NoStrings: p.StringTable == nil}
	if p.StringTable != nil {
		o.Strings = p.StringTable.S
	}
	for _, g := range p.PrimitiveGroup {
		og := &vh.OGroup{}
		if d := g.Dense; d != nil {
			og.Dense = &vh.ODense{Id: d.Id, Lat: d.Lat, Lon: d.Lon, KV: d.KeyVals}
		}
		for _, w := range g.Ways {
			og.Ways = append(og.Ways, &vh.OWay{ID: int64(w.ID), Keys: w.Keys, Vals: w.Vals, Refs: w.Refs})
		}
		for _, r := range g.Relations {
			og.Rels = append(og.Rels, &vh.ORel{ID: int64(r.ID), Keys: r.Keys, Vals: r.Vals, Roles: r.RolesSID, Mems: r.MemIDs, Types: r.MemberType})
		}
		o.Groups = append(o.Groups, og)
	}
	return o
}

// Hex is a short form of bytes for messages.
func Hex(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x...(%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%x", b)
}
