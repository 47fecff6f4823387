//verif: prop=C04 pkg=internal/t

package t_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/squizzling/osmindex/internal/t"
	"github.com/squizzling/osmindex/internal/zverif/vh"
	"github.com/squizzling/osmindex/internal/zverif/vht"
)

func TestVerif_C04_block(tt *testing.T) {
	h := vh.Start(tt, "C04", "random blocks (sections missing, empty and full; ids and coordinates of every magnitude): what the code writes is decoded by an independent decoder and by the code itself, and what an independent encoder writes (infos, changesets, explicit defaults, the table at the end) is decoded by the code; non-trivial: distinct blocks")
	h.Budget(6e9, 60e9)
	for h.More(300) {
		g := vh.NewGen(h)
		g.Wild = h.Intn(2) == 0
		if h.Intn(20) == 0 {
			g.MaxN = 400
		}
		o := g.Block()
		o.NoStrings = h.Intn(20) == 0
		if o.NoStrings {
			o.Strings = nil
		}
		want := o.Dump()
		enc := o.Enc()
		pre, spare := h.Bytes(h.Intn(5)), h.Intn(64)
		// encoded sizes which the fixed-width prefixes can not hold are refused
		fits := true
		for _, gr := range o.Groups {
			for _, w := range gr.Ways {
				if len(w.Enc())+16 >= 16384 {
					fits = false
				}
			}
		}
		if !fits {
			continue
		}
		h.Case(fmt.Sprintf("%s\nencoded %x after %x spare %d", want, enc, pre, spare), func() string {
			var pblk t.PrimitiveBlock
			(&t.PBReader{}).ReadPrimitiveBlock(enc, &pblk)
			if d := vh.Diff(vht.FromT(&pblk).Dump(), want); d != "" {
				return "decoding " + d
			}
			buf := append(make([]byte, 0, len(pre)+spare), pre...)
			out := vht.ToT(o).Write(buf)
			if !bytes.HasPrefix(out, pre) {
				return "the bytes already in the buffer are damaged"
			}
			back, err := vh.DecOBlock(out[len(pre):])
			if err != nil {
				return "written block is malformed: " + err.Error()
			}
			if d := vh.Diff(back.Dump(), want); d != "" {
				return "written " + d
			}
			var again t.PrimitiveBlock
			(&t.PBReader{}).ReadPrimitiveBlock(out[len(pre):], &again)
			if d := vh.Diff(vht.FromT(&again).Dump(), want); d != "" {
				return "read back " + d
			}
			// writing does not depend on history
			if out2 := again.Write(nil); !bytes.Equal(out2, out[len(pre):]) {
				return "writing what was read gives different bytes"
			}
			return ""
		})
	}
}

func TestVerif_C04_entity(tt *testing.T) {
	h := vh.Start(tt, "C04", "single ways, relations, dense sections and groups with lists around the prefix size boundaries (127/128, 16383/16384 bytes) and extreme values; non-trivial: distinct messages")
	h.Budget(5e9, 60e9)
	for h.More(300) {
		n := h.Size(80)
		if h.Intn(6) == 0 {
			n = []int{126, 127, 128, 129, 1000, 5460, 16380, 16383, 16384}[h.Intn(9)]
		}
		kind := h.Intn(3)
		step := int64(1)
		if h.Intn(3) == 0 {
			step = h.I64()
		}
		switch kind {
		case 0:
			w := &vh.OWay{ID: h.I64()}
			for i := 0; i < n; i++ {
				w.Refs = append(w.Refs, int64(i)*step)
			}
			for i := h.Size(40); i > 0; i-- {
				w.Keys, w.Vals = append(w.Keys, uint32(h.U64())), append(w.Vals, uint32(h.U64()))
			}
			refs := vh.PackDelta(w.Refs)
			tooBig := len(refs) >= 16384
			h.Case(fmt.Sprintf("way %d k%d v%d, %d refs step %d", w.ID, w.Keys, w.Vals, n, step), func() string {
				var out []byte
				msg := vh.Panics(func() {
					out = (&t.Way{ID: t.WayId(w.ID), Keys: w.Keys, Vals: w.Vals, Refs: w.Refs}).Write(nil)
				})
				if tooBig {
					if msg == "" {
						return "a way with too many refs was written"
					}
					return ""
				}
				if msg != "" {
					return msg
				}
				back, err := vh.DecWay(out)
				if err != nil {
					return err.Error()
				}
				if d := vh.Diff(back.Dump(), w.Dump()); d != "" {
					return d
				}
				var w2 t.Way
				(&t.PBReader{}).ReadWay(out, &w2)
				return vh.Diff((&vh.OWay{ID: int64(w2.ID), Keys: w2.Keys, Vals: w2.Vals, Refs: w2.Refs}).Dump(), w.Dump())
			})
		case 1:
			r := &vh.ORel{ID: h.I64()}
			for i := 0; i < n; i++ {
				r.Mems = append(r.Mems, int64(i)*step)
				r.Roles = append(r.Roles, int32(h.U64()))
				r.Types = append(r.Types, h.U64())
			}
			for i := h.Size(40); i > 0; i-- {
				r.Keys, r.Vals = append(r.Keys, uint32(h.U64())), append(r.Vals, uint32(h.U64()))
			}
			h.Case(fmt.Sprintf("relation %d k%d v%d, %d members step %d", r.ID, r.Keys, r.Vals, n, step), func() string {
				out := (&t.Relation{ID: t.RelId(r.ID), Keys: r.Keys, Vals: r.Vals, RolesSID: r.Roles, MemIDs: r.Mems, MemberType: r.Types}).Write(nil)
				back, err := vh.DecRel(out)
				if err != nil {
					return err.Error()
				}
				if d := vh.Diff(back.Dump(), r.Dump()); d != "" {
					return d
				}
				var r2 t.Relation
				t.ReadRelation(out, &r2)
				return vh.Diff((&vh.ORel{ID: int64(r2.ID), Keys: r2.Keys, Vals: r2.Vals, Roles: r2.RolesSID, Mems: r2.MemIDs, Types: r2.MemberType}).Dump(), r.Dump())
			})
		default:
			d := &vh.ODense{}
			for i := 0; i < n; i++ {
				d.Id = append(d.Id, int64(i)*step)
				d.Lat = append(d.Lat, h.I64())
				d.Lon = append(d.Lon, h.I64())
			}
			for i := h.Size(40); i > 0; i-- {
				d.KV = append(d.KV, int32(h.U64()))
			}
			h.Case(fmt.Sprintf("%d nodes step %d kv %d", n, step, d.KV), func() string {
				out := (&t.DenseNodes{Id: d.Id, Lat: d.Lat, Lon: d.Lon, KeyVals: d.KV}).Write(nil)
				back, err := vh.DecDense(out)
				if err != nil {
					return err.Error()
				}
				if x := vh.Diff(back.Dump(), d.Dump()); x != "" {
					return x
				}
				var d2 t.DenseNodes
				t.ReadDenseNodes(out, &d2)
				return vh.Diff((&vh.ODense{Id: d2.Id, Lat: d2.Lat, Lon: d2.Lon, KV: d2.KeyVals}).Dump(), d.Dump())
			})
		}
	}
}

func TestVerif_C04_blob(tt *testing.T) {
	h := vh.Start(tt, "C04", "blobs and blob headers of every shape, empty and boundary sizes; non-trivial: distinct messages")
	h.Budget(2e9, 20e9)
	for h.More(500) {
		typ := []string{"", "OSMData", "OSMHeader", h.Str()}[h.Intn(4)]
		size := int32(h.U64())
		if h.Intn(2) == 0 {
			size = int32(h.Intn(70000))
		}
		raw := h.Bytes(h.Size(300))
		shape := h.Intn(5)
		if h.Intn(40) == 0 {
			raw = h.Bytes([]int{16383, 16384, 2097151, 2097152}[h.Intn(4)])
		}
		k := raw
		if len(k) > 60 {
			k = k[:60]
		}
		h.Case(fmt.Sprintf("type %q size %d shape %d raw %d %x", typ, size, shape, len(raw), k), func() string {
			hb := (&t.BlobHeader{Type: typ, DataSize: size}).Write([]byte{7})
			bh := (&t.PBReader{}).ReadBlobHeader(hb[1:])
			if hb[0] != 7 || bh.Type != typ || bh.DataSize != size {
				return fmt.Sprintf("header read back as %q %d", bh.Type, bh.DataSize)
			}
			hd := vh.Frame(typ, nil)
			if size == 0 && typ != "" {
				want := append(binary.AppendUvarint([]byte{7, 10}, uint64(len(typ))), typ...)
				if !bytes.Equal(hb, want) {
					return fmt.Sprintf("header of nothing is %x", hb)
				}
			}
			if g := (&t.PBReader{}).ReadBlobHeader(hd[4:]); g.Type != typ || g.DataSize != 0 {
				return "an explicit size of 0 is not read"
			}
			b := &t.Blob{}
			rs := size
			switch shape {
			case 0:
				b.Raw = raw
			case 1:
				b.Raw, b.RawSize = raw, &rs
			case 2:
				b.ZLibData, b.RawSize = raw, &rs
			case 3:
				b.RawFunc = func(x []byte) []byte { return append(x, raw...) }
			case 4:
				b.RawFunc, b.Raw = func(x []byte) []byte { return append(x, raw...) }, []byte{1}
			}
			out := b.Write([]byte{3, 4})
			var c t.Blob
			(&t.PBReader{}).ReadBlob(out[2:], &c)
			if out[0] != 3 || out[1] != 4 {
				return "the bytes already in the buffer are damaged"
			}
			if (shape == 2) != (len(c.ZLibData) > 0) && len(raw) > 0 {
				return "content moved"
			}
			if shape == 2 && !bytes.Equal(c.ZLibData, raw) || shape != 2 && (!bytes.Equal(c.Raw, raw) || c.Raw == nil) {
				return "content read back differs"
			}
			if (b.RawSize == nil) != (c.RawSize == nil) || c.RawSize != nil && *c.RawSize != size {
				return "size read back differs"
			}
			if shape != 1 && shape != 2 {
				d, _, err := vh.DecBlob(out[2:])
				if err != nil || !bytes.Equal(d, raw) {
					return fmt.Sprintf("blob is malformed: %v", err)
				}
			}
			return ""
		})
	}
}

func TestVerif_C04_data(tt *testing.T) {
	h := vh.Start(tt, "C04", "contents of 0-3 MB, plain and deflated at every level of repetition, read through GetRawData with buffers that come back from the pool; non-trivial: distinct contents")
	h.Budget(2e9, 20e9)
	for h.More(100) {
		n := h.Size(400)
		if h.Intn(5) == 0 {
			n = []int{65535, 65536, 65537, 100000, 300000}[h.Intn(5)]
		}
		data := h.Bytes(n)
		if h.Intn(2) == 0 {
			for i := range data {
				data[i] &= 1
			}
		}
		z := h.Intn(3) > 0
		k := data
		if len(k) > 40 {
			k = k[:40]
		}
		h.Case(fmt.Sprintf("%d bytes %x zlib %v", n, k, z), func() string {
			var b t.Blob
			enc := vh.EncBlob(data, z)
			(&t.PBReader{}).ReadBlob(enc, &b)
			g := b.GetRawData()
			if !bytes.Equal(g.Buffer, data) {
				return fmt.Sprintf("%d bytes returned for %d, or different content", len(g.Buffer), n)
			}
			return ""
		})
	}
}
