package vh

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// ---------------------------------------------------------------- an independent OSM PBF model
// Written from the file format's description; shares no code with the tools.

type ODense struct {
	Id, Lat, Lon []int64
	KV           []int32
	Info         []byte
}

type OWay struct {
	ID         int64
	Keys, Vals []uint32
	Refs       []int64
	Info       []byte
}

type ORel struct {
	ID         int64
	Keys, Vals []uint32
	Roles      []int32
	Mems       []int64
	Types      []uint64
	Info       []byte
}

type OGroup struct {
	Dense     *ODense
	Ways      []*OWay
	Rels      []*ORel
	Changeset []byte
}

type OBlock struct {
	NoStrings        bool
	Strings          []string
	Groups           []*OGroup
	Gran, DateGran   int32
	LatOff, LonOff   int64
	StringsLast      bool // the table follows the groups
	ExplicitDefaults bool
}

func NewOBlock() *OBlock { return &OBlock{Strings: []string{""}, Gran: 100, DateGran: 1000} }

func put(b []byte, id int, wire int) []byte { return binary.AppendUvarint(b, uint64(id<<3|wire)) }
func pv(b []byte, id int, v uint64) []byte  { return binary.AppendUvarint(put(b, id, 0), v) }
func pbs(b []byte, id int, x []byte) []byte {
	return append(binary.AppendUvarint(put(b, id, 2), uint64(len(x))), x...)
}
func zz(v int64) uint64 { return uint64(v<<1) ^ uint64(v>>63) }

func PackU(xs []uint64) (b []byte) {
	for _, x := range xs {
		b = binary.AppendUvarint(b, x)
	}
	return
}
func packU32(xs []uint32) (b []byte) {
	for _, x := range xs {
		b = binary.AppendUvarint(b, uint64(x))
	}
	return
}
func packI32(xs []int32) (b []byte) {
	for _, x := range xs {
		b = binary.AppendUvarint(b, uint64(int64(x)))
	}
	return
}
func PackDelta(xs []int64) (b []byte) {
	p := int64(0)
	for _, x := range xs {
		b = binary.AppendUvarint(b, zz(x-p))
		p = x
	}
	return
}

func (d *ODense) Enc() (b []byte) {
	b = pbs(b, 1, PackDelta(d.Id))
	if d.Info != nil {
		b = pbs(b, 5, d.Info)
	}
	b = pbs(b, 8, PackDelta(d.Lat))
	b = pbs(b, 9, PackDelta(d.Lon))
	if len(d.KV) > 0 {
		b = pbs(b, 10, packI32(d.KV))
	}
	return
}

func (w *OWay) Enc() (b []byte) {
	b = pv(b, 1, uint64(w.ID))
	if len(w.Keys) > 0 {
		b = pbs(b, 2, packU32(w.Keys))
		b = pbs(b, 3, packU32(w.Vals))
	}
	if w.Info != nil {
		b = pbs(b, 4, w.Info)
	}
	if len(w.Refs) > 0 {
		b = pbs(b, 8, PackDelta(w.Refs))
	}
	return
}

func (r *ORel) Enc() (b []byte) {
	b = pv(b, 1, uint64(r.ID))
	if len(r.Keys) > 0 {
		b = pbs(b, 2, packU32(r.Keys))
		b = pbs(b, 3, packU32(r.Vals))
	}
	if r.Info != nil {
		b = pbs(b, 4, r.Info)
	}
	if len(r.Mems) > 0 {
		b = pbs(b, 8, packI32(r.Roles))
		b = pbs(b, 9, PackDelta(r.Mems))
		b = pbs(b, 10, PackU(r.Types))
	}
	return
}

func (g *OGroup) Enc() (b []byte) {
	if g.Dense != nil {
		b = pbs(b, 2, g.Dense.Enc())
	}
	for _, w := range g.Ways {
		b = pbs(b, 3, w.Enc())
	}
	for _, r := range g.Rels {
		b = pbs(b, 4, r.Enc())
	}
	if g.Changeset != nil {
		b = pbs(b, 5, g.Changeset)
	}
	return
}

func (o *OBlock) EncStrings() (b []byte) {
	for _, s := range o.Strings {
		b = pbs(b, 1, []byte(s))
	}
	return
}

func (o *OBlock) Enc() (b []byte) {
	st := pbs(nil, 1, o.EncStrings())
	if o.NoStrings {
		st = nil
	}
	if !o.StringsLast {
		b = append(b, st...)
	}
	for _, g := range o.Groups {
		b = pbs(b, 2, g.Enc())
	}
	if o.Gran != 100 || o.ExplicitDefaults {
		b = pv(b, 17, uint64(int64(o.Gran)))
	}
	if o.DateGran != 1000 || o.ExplicitDefaults {
		b = pv(b, 18, uint64(int64(o.DateGran)))
	}
	if o.LatOff != 0 || o.ExplicitDefaults {
		b = pv(b, 19, uint64(o.LatOff))
	}
	if o.LonOff != 0 || o.ExplicitDefaults {
		b = pv(b, 20, uint64(o.LonOff))
	}
	if o.StringsLast {
		b = append(b, st...)
	}
	return
}

type field struct {
	id, wire int
	v        uint64
	b        []byte
}

var errWire = errors.New("malformed message")

func fields(b []byte) (out []field, err error) {
	for len(b) > 0 {
		t, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, errWire
		}
		b = b[n:]
		f := field{id: int(t >> 3), wire: int(t & 7)}
		v, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, errWire
		}
		b = b[n:]
		switch f.wire {
		case 0:
			f.v = v
		case 2:
			if v > uint64(len(b)) {
				return nil, errWire
			}
			f.b, b = b[:v:v], b[v:]
		default:
			return nil, fmt.Errorf("wire type %d", f.wire)
		}
		out = append(out, f)
	}
	return
}

func UnpackU(b []byte) (xs []uint64, err error) {
	for len(b) > 0 {
		v, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, errWire
		}
		b = b[n:]
		xs = append(xs, v)
	}
	return
}

func UnpackDelta(b []byte) (xs []int64, err error) {
	us, err := UnpackU(b)
	p := int64(0)
	for _, u := range us {
		p += int64(u>>1) ^ -int64(u&1)
		xs = append(xs, p)
	}
	return xs, err
}

func u32s(b []byte) (xs []uint32, err error) {
	us, err := UnpackU(b)
	for _, u := range us {
		xs = append(xs, uint32(u))
	}
	return xs, err
}

func i32s(b []byte) (xs []int32, err error) {
	us, err := UnpackU(b)
	for _, u := range us {
		xs = append(xs, int32(u))
	}
	return xs, err
}

func firstErr(es ...error) error {
	for _, e := range es {
		if e != nil {
			return e
		}
	}
	return nil
}

func DecDense(b []byte) (*ODense, error) {
	d := &ODense{}
	fs, err := fields(b)
	for _, f := range fs {
		var e error
		switch {
		case f.wire == 2 && f.id == 1:
			d.Id, e = UnpackDelta(f.b)
		case f.wire == 2 && f.id == 5:
			d.Info = f.b
		case f.wire == 2 && f.id == 8:
			d.Lat, e = UnpackDelta(f.b)
		case f.wire == 2 && f.id == 9:
			d.Lon, e = UnpackDelta(f.b)
		case f.wire == 2 && f.id == 10:
			d.KV, e = i32s(f.b)
		default:
			e = fmt.Errorf("dense nodes: field %d/%d", f.id, f.wire)
		}
		err = firstErr(err, e)
	}
	return d, err
}

func DecWay(b []byte) (*OWay, error) {
	w := &OWay{}
	fs, err := fields(b)
	for _, f := range fs {
		var e error
		switch {
		case f.wire == 0 && f.id == 1:
			w.ID = int64(f.v)
		case f.wire == 2 && f.id == 2:
			w.Keys, e = u32s(f.b)
		case f.wire == 2 && f.id == 3:
			w.Vals, e = u32s(f.b)
		case f.wire == 2 && f.id == 4:
			w.Info = f.b
		case f.wire == 2 && f.id == 8:
			w.Refs, e = UnpackDelta(f.b)
		default:
			e = fmt.Errorf("way: field %d/%d", f.id, f.wire)
		}
		err = firstErr(err, e)
	}
	return w, err
}

func DecRel(b []byte) (*ORel, error) {
	r := &ORel{}
	fs, err := fields(b)
	for _, f := range fs {
		var e error
		switch {
		case f.wire == 0 && f.id == 1:
			r.ID = int64(f.v)
		case f.wire == 2 && f.id == 2:
			r.Keys, e = u32s(f.b)
		case f.wire == 2 && f.id == 3:
			r.Vals, e = u32s(f.b)
		case f.wire == 2 && f.id == 4:
			r.Info = f.b
		case f.wire == 2 && f.id == 8:
			r.Roles, e = i32s(f.b)
		case f.wire == 2 && f.id == 9:
			r.Mems, e = UnpackDelta(f.b)
		case f.wire == 2 && f.id == 10:
			r.Types, e = UnpackU(f.b)
		default:
			e = fmt.Errorf("relation: field %d/%d", f.id, f.wire)
		}
		err = firstErr(err, e)
	}
	return r, err
}

// Raw sections as they stand in the bytes of a block.
type ORaw struct {
	Strings [][]byte
	Groups  []*ORawGroup
}
type ORawGroup struct{ Dense, Ways, Rels [][]byte }

func RawSections(b []byte) (*ORaw, error) {
	o := &ORaw{}
	fs, err := fields(b)
	for _, f := range fs {
		switch f.id {
		case 1:
			o.Strings = append(o.Strings, f.b)
		case 2:
			g := &ORawGroup{}
			gs, e := fields(f.b)
			err = firstErr(err, e)
			for _, x := range gs {
				switch x.id {
				case 2:
					g.Dense = append(g.Dense, x.b)
				case 3:
					g.Ways = append(g.Ways, x.b)
				case 4:
					g.Rels = append(g.Rels, x.b)
				}
			}
			o.Groups = append(o.Groups, g)
		}
	}
	return o, err
}

func DecOBlock(b []byte) (*OBlock, error) {
	o := &OBlock{Gran: 100, DateGran: 1000, NoStrings: true}
	fs, err := fields(b)
	for _, f := range fs {
		var e error
		switch {
		case f.wire == 2 && f.id == 1:
			o.NoStrings = false
			ss, e2 := fields(f.b)
			e = e2
			for _, s := range ss {
				if s.id != 1 || s.wire != 2 {
					e = firstErr(e, fmt.Errorf("string table: field %d/%d", s.id, s.wire))
				}
				o.Strings = append(o.Strings, string(s.b))
			}
		case f.wire == 2 && f.id == 2:
			g := &OGroup{}
			gs, e2 := fields(f.b)
			e = e2
			for _, x := range gs {
				var e3 error
				switch {
				case x.wire == 2 && x.id == 2:
					if g.Dense != nil {
						e3 = errors.New("two dense sections in a group")
					}
					g.Dense, e2 = DecDense(x.b)
					e3 = firstErr(e3, e2)
				case x.wire == 2 && x.id == 3:
					w, e4 := DecWay(x.b)
					e3 = e4
					g.Ways = append(g.Ways, w)
				case x.wire == 2 && x.id == 4:
					r, e4 := DecRel(x.b)
					e3 = e4
					g.Rels = append(g.Rels, r)
				case x.wire == 2 && x.id == 5:
				default:
					e3 = fmt.Errorf("group: field %d/%d", x.id, x.wire)
				}
				e = firstErr(e, e3)
			}
			o.Groups = append(o.Groups, g)
		case f.wire == 0 && f.id == 17:
			o.Gran = int32(f.v)
		case f.wire == 0 && f.id == 18:
			o.DateGran = int32(f.v)
		case f.wire == 0 && f.id == 19:
			o.LatOff = int64(f.v)
		case f.wire == 0 && f.id == 20:
			o.LonOff = int64(f.v)
		default:
			e = fmt.Errorf("block: field %d/%d", f.id, f.wire)
		}
		err = firstErr(err, e)
	}
	return o, err
}

func (d *ODense) Dump() string { return fmt.Sprintf("D{%d %d %d %d}", d.Id, d.Lat, d.Lon, d.KV) }
func (w *OWay) Dump() string   { return fmt.Sprintf("W{%d k%d v%d %d}", w.ID, w.Keys, w.Vals, w.Refs) }
func (r *ORel) Dump() string {
	return fmt.Sprintf("R{%d k%d v%d r%d %d %d}", r.ID, r.Keys, r.Vals, r.Roles, r.Mems, r.Types)
}
func (g *OGroup) Dump() string {
	var s []string
	if g.Dense != nil {
		s = append(s, g.Dense.Dump())
	}
	for _, w := range g.Ways {
		s = append(s, w.Dump())
	}
	for _, r := range g.Rels {
		s = append(s, r.Dump())
	}
	return "G{" + strings.Join(s, " ") + "}"
}

// Dump names everything a decoded block carries (infos are not kept by the tools).
func (o *OBlock) Dump() string {
	s := []string{fmt.Sprintf("strings%q gran %d/%d off %d/%d", o.Strings, o.Gran, o.DateGran, o.LatOff, o.LonOff)}
	for _, g := range o.Groups {
		s = append(s, g.Dump())
	}
	return strings.Join(s, "\n")
}

// ---------------------------------------------------------------- files

type OBlob struct {
	Type string
	Data []byte
	Zlib bool
}

func Deflate(b []byte) []byte {
	var z bytes.Buffer
	w := zlib.NewWriter(&z)
	w.Write(b)
	w.Close()
	return z.Bytes()
}

// EncBlob is the blob message of some content.
func EncBlob(data []byte, z bool) []byte {
	if z {
		return pbs(pv(nil, 2, uint64(len(data))), 3, Deflate(data))
	}
	return pbs(nil, 1, data)
}

// Frame is a block of a file: sizes, header and blob.
func Frame(typ string, blob []byte) []byte {
	hd := pv(pbs(nil, 1, []byte(typ)), 3, uint64(len(blob)))
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, uint32(len(hd)))
	return append(append(b, hd...), blob...)
}

func EncFile(bs []OBlob) (b []byte) {
	for _, x := range bs {
		b = append(b, Frame(x.Type, EncBlob(x.Data, x.Zlib))...)
	}
	return
}

// DecBlob returns the content of a blob message.
func DecBlob(b []byte) (data []byte, z bool, err error) {
	fs, err := fields(b)
	if err != nil {
		return nil, false, err
	}
	n, size := 0, -1
	for _, f := range fs {
		switch {
		case f.id == 1 && f.wire == 2:
			n++
			data = f.b
		case f.id == 2 && f.wire == 0:
			size = int(f.v)
		case f.id == 3 && f.wire == 2:
			n++
			z = true
			r, e := zlib.NewReader(bytes.NewReader(f.b))
			if e != nil {
				return nil, true, e
			}
			if data, e = io.ReadAll(r); e != nil {
				return nil, true, e
			}
		default:
			return nil, z, fmt.Errorf("blob: field %d/%d", f.id, f.wire)
		}
	}
	if n != 1 {
		return nil, z, fmt.Errorf("blob with %d contents", n)
	}
	if size >= 0 && size != len(data) {
		return nil, z, fmt.Errorf("raw_size %d of %d bytes", size, len(data))
	}
	return data, z, nil
}

func DecFile(b []byte) (out []OBlob, err error) {
	for len(b) > 0 {
		if len(b) < 4 {
			return out, errors.New("cut short in a header size")
		}
		n := int(binary.BigEndian.Uint32(b))
		b = b[4:]
		if n > len(b) {
			return out, errors.New("cut short in a header")
		}
		fs, e := fields(b[:n])
		b = b[n:]
		if e != nil {
			return out, e
		}
		typ, size := "", -1
		for _, f := range fs {
			switch {
			case f.id == 1 && f.wire == 2:
				typ = string(f.b)
			case f.id == 3 && f.wire == 0:
				size = int(f.v)
			default:
				return out, fmt.Errorf("blob header: field %d/%d", f.id, f.wire)
			}
		}
		if size < 0 {
			size = 0
		}
		if size > len(b) {
			return out, errors.New("cut short in a blob")
		}
		d, z, e := DecBlob(b[:size])
		if e != nil {
			return out, e
		}
		b = b[size:]
		out = append(out, OBlob{typ, d, z})
	}
	return out, nil
}

// ---------------------------------------------------------------- entities

type HNode struct {
	Id, Lat, Lon int64 // coordinates in nanodegrees
	Tags         map[string]string
}
type HWay struct {
	Id   int64
	Tags map[string]string
	Refs []int64
}
type HRel struct {
	Id    int64
	Tags  map[string]string
	Roles []string
	Mems  []int64
	Types []uint64
}

func TagStr(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := ""
	for _, k := range ks {
		s += fmt.Sprintf("%q=%q ", k, m[k])
	}
	return "[" + s + "]"
}

func (n *HNode) Dump() string {
	return fmt.Sprintf("node %d @%d,%d %s", n.Id, n.Lat, n.Lon, TagStr(n.Tags))
}
func (w *HWay) Dump() string { return fmt.Sprintf("way %d %d %s", w.Id, w.Refs, TagStr(w.Tags)) }
func (r *HRel) Dump() string {
	return fmt.Sprintf("relation %d %q %d %d %s", r.Id, r.Roles, r.Mems, r.Types, TagStr(r.Tags))
}

func (o *OBlock) str(i int64) (string, error) {
	if i < 0 || i >= int64(len(o.Strings)) {
		return "", fmt.Errorf("string %d of %d", i, len(o.Strings))
	}
	return o.Strings[i], nil
}

// Entities reads every entity of a block, in order.
func (o *OBlock) Entities() (ns []*HNode, ws []*HWay, rs []*HRel, err error) {
	tags := func(ks, vs []uint32) map[string]string {
		m := map[string]string{}
		if len(ks) != len(vs) {
			err = firstErr(err, fmt.Errorf("%d keys, %d values", len(ks), len(vs)))
			return m
		}
		for i := range ks {
			k, e := o.str(int64(ks[i]))
			v, e2 := o.str(int64(vs[i]))
			err = firstErr(err, e, e2)
			m[k] = v
		}
		return m
	}
	for _, g := range o.Groups {
		if d := g.Dense; d != nil {
			if len(d.Lat) != len(d.Id) || len(d.Lon) != len(d.Id) {
				return nil, nil, nil, fmt.Errorf("%d ids, %d lats, %d lons", len(d.Id), len(d.Lat), len(d.Lon))
			}
			p := 0
			for i := range d.Id {
				m := map[string]string{}
				if len(d.KV) > 0 {
					for {
						if p >= len(d.KV) {
							return nil, nil, nil, errors.New("tag list of a node is cut short")
						}
						if d.KV[p] == 0 {
							p++
							break
						}
						if p+1 >= len(d.KV) {
							return nil, nil, nil, errors.New("tag list of a node is cut short")
						}
						k, e := o.str(int64(d.KV[p]))
						v, e2 := o.str(int64(d.KV[p+1]))
						err = firstErr(err, e, e2)
						m[k] = v
						p += 2
					}
				}
				ns = append(ns, &HNode{d.Id[i], o.LatOff + int64(o.Gran)*d.Lat[i], o.LonOff + int64(o.Gran)*d.Lon[i], m})
			}
			if p != len(d.KV) {
				err = firstErr(err, errors.New("node tags are left over"))
			}
		}
		for _, w := range g.Ways {
			ws = append(ws, &HWay{w.ID, tags(w.Keys, w.Vals), w.Refs})
		}
		for _, r := range g.Rels {
			if len(r.Roles) != len(r.Mems) || len(r.Types) != len(r.Mems) {
				return nil, nil, nil, errors.New("relation members differ in number")
			}
			var roles []string
			for _, x := range r.Roles {
				s, e := o.str(int64(x))
				err = firstErr(err, e)
				roles = append(roles, s)
			}
			rs = append(rs, &HRel{r.ID, tags(r.Keys, r.Vals), roles, r.Mems, r.Types})
		}
	}
	return
}

func DumpEntities(ns []*HNode, ws []*HWay, rs []*HRel) string {
	var s []string
	for _, x := range ns {
		s = append(s, x.Dump())
	}
	for _, x := range ws {
		s = append(s, x.Dump())
	}
	for _, x := range rs {
		s = append(s, x.Dump())
	}
	return strings.Join(s, "\n")
}

// ---------------------------------------------------------------- generators

type Gen struct {
	H         *H
	MaxN      int  // entities per group
	Wild      bool // ids and coordinates of any magnitude
	Sorted    bool // ids increase over the whole file
	NextN     int64
	NextW     int64
	NextR     int64
	Dense     int // weight of each section, of 10
	Ways      int
	Rels      int
	Strs      []string
	WayRefMax int64 // refs are drawn from 1..WayRefMax (0: any)
	Plain     bool  // no infos, changesets, offsets, odd orders
	NoTags    bool
}

func NewGen(h *H) *Gen {
	return &Gen{H: h, MaxN: 6, NextN: int64(1 + h.Intn(5)), NextW: int64(1 + h.Intn(5)), NextR: int64(1 + h.Intn(5)), Dense: 6, Ways: 6, Rels: 6,
		Strs: []string{"", "a", "b", "name", "highway", "note", "source", "source:x", "created_by", "é", "ref"}}
}

func (g *Gen) str(o *OBlock, first int) int {
	h := g.H
	if len(o.Strings) > first && h.Intn(3) > 0 {
		return first + h.Intn(len(o.Strings)-first)
	}
	s := g.Strs[h.Intn(len(g.Strs))]
	if h.Intn(5) == 0 {
		s += string(h.Bytes(h.Intn(5)))
	}
	o.Strings = append(o.Strings, s)
	return len(o.Strings) - 1
}

// tagIDs draws distinct keys (by text), so tags form a map.
func (g *Gen) tagIDs(o *OBlock, first int) (ks, vs []uint32) {
	if g.NoTags || g.H.Intn(3) == 0 {
		return
	}
	seen := map[string]bool{}
	for n := g.H.Intn(4); n > 0; n-- {
		k, v := g.str(o, first), g.str(o, 0)
		if seen[o.Strings[k]] || first == 1 && o.Strings[k] == "" {
			// a node's empty key has no representation besides the list end
			continue
		}
		seen[o.Strings[k]] = true
		ks, vs = append(ks, uint32(k)), append(vs, uint32(v))
	}
	return
}

func (g *Gen) id(next *int64) int64 {
	h := g.H
	if g.Sorted {
		v := *next
		*next += int64([]int{1, 1, 1, 2, 2, 3, 1 + h.Intn(40)}[h.Intn(7)])
		return v
	}
	if g.Wild && h.Intn(3) == 0 {
		return h.I64()
	}
	return int64(1 + h.Intn(200))
}

func (g *Gen) ref() int64 {
	if g.WayRefMax > 0 {
		return 1 + int64(g.H.Intn(int(g.WayRefMax)))
	}
	if g.Wild {
		return g.H.I64()
	}
	return int64(1 + g.H.Intn(300))
}

func (g *Gen) coord(max int64) int64 {
	h := g.H
	if g.Wild && h.Intn(4) == 0 {
		return h.I64() >> 8
	}
	switch h.Intn(5) {
	case 0:
		return []int64{max, -max, 0, 1, -1, max - 1, 1 - max}[h.Intn(7)]
	}
	return h.Int63n(2*max+1) - max
}

func (g *Gen) info() []byte {
	if !g.Plain && g.H.Intn(4) == 0 {
		return g.H.Bytes(g.H.Intn(20))
	}
	return nil
}

// Block draws a block; sections may be empty or missing.
func (g *Gen) Block() *OBlock {
	h := g.H
	o := NewOBlock()
	if !g.Plain {
		switch h.Intn(4) {
		case 0:
			o.Gran = []int32{1, 10, 100, 1000, 200}[h.Intn(5)]
		case 1:
			o.LatOff, o.LonOff = h.Int63n(2000000)-1000000, h.Int63n(2000000)-1000000
		case 2:
			if h.Intn(2) == 0 {
				o.DateGran = int32(h.Intn(3000))
			}
			if g.Wild && h.Intn(3) == 0 {
				o.Gran, o.LatOff, o.LonOff = int32(h.I64()), h.I64(), h.I64()
			}
		}
		o.StringsLast = h.Intn(6) == 0
		o.ExplicitDefaults = h.Intn(4) == 0
	}
	maxLat, maxLon := int64(90e9), int64(180e9)
	ng := h.Intn(4)
	for i := 0; i < ng; i++ {
		gr := &OGroup{}
		if h.Intn(10) < g.Dense {
			d := &ODense{Info: g.info()}
			some := h.Intn(3) > 0 && !g.NoTags
			for n := h.Intn(g.MaxN + 1); n > 0; n-- {
				d.Id = append(d.Id, g.id(&g.NextN))
				gran := int64(o.Gran)
				if gran <= 0 {
					gran = 1
				}
				d.Lat = append(d.Lat, g.coord(maxLat/gran))
				d.Lon = append(d.Lon, g.coord(maxLon/gran))
				if some {
					ks, vs := g.tagIDs(o, 1)
					for j := range ks {
						d.KV = append(d.KV, int32(ks[j]), int32(vs[j]))
					}
					d.KV = append(d.KV, 0)
				}
			}
			gr.Dense = d
		}
		if h.Intn(10) < g.Ways {
			for n := h.Intn(g.MaxN + 1); n > 0; n-- {
				w := &OWay{ID: g.id(&g.NextW), Info: g.info()}
				w.Keys, w.Vals = g.tagIDs(o, 0)
				for k := h.Size(30); k > 0; k-- {
					w.Refs = append(w.Refs, g.ref())
					if h.Intn(5) == 0 {
						w.Refs = append(w.Refs, w.Refs[h.Intn(len(w.Refs))])
					}
				}
				gr.Ways = append(gr.Ways, w)
			}
		}
		if h.Intn(10) < g.Rels {
			for n := h.Intn(g.MaxN + 1); n > 0; n-- {
				r := &ORel{ID: g.id(&g.NextR), Info: g.info()}
				r.Keys, r.Vals = g.tagIDs(o, 0)
				for k := h.Size(20); k > 0; k-- {
					r.Roles = append(r.Roles, int32(g.str(o, 0)))
					r.Mems = append(r.Mems, g.ref())
					r.Types = append(r.Types, uint64(h.Intn(3)))
				}
				gr.Rels = append(gr.Rels, r)
			}
		}
		if !g.Plain && h.Intn(10) == 0 {
			gr.Changeset = h.Bytes(h.Intn(10))
		}
		o.Groups = append(o.Groups, gr)
	}
	return o
}

// File draws a header and n blocks.
func (g *Gen) File(n int) (bs []OBlob, blocks []*OBlock) {
	h := g.H
	bs = append(bs, OBlob{"OSMHeader", h.Bytes(h.Intn(30)), h.Intn(2) == 0})
	blocks = append(blocks, nil)
	for i := 0; i < n; i++ {
		if !g.Plain && h.Intn(12) == 0 {
			bs = append(bs, OBlob{"OSMHeader", h.Bytes(h.Intn(30)), h.Intn(2) == 0})
			blocks = append(blocks, nil)
		}
		o := g.Block()
		blocks = append(blocks, o)
		bs = append(bs, OBlob{"OSMData", o.Enc(), h.Intn(2) == 0})
	}
	return
}

// ---------------------------------------------------------------- tools

var tools struct {
	sync.Mutex
	m map[string]string
}

// Tool builds cmd/name from the repository under test and returns the binary.
func Tool(h *H, name string) string {
	tools.Lock()
	defer tools.Unlock()
	if p := tools.m[name]; p != "" {
		return p
	}
	dir, err := os.MkdirTemp("", "tool")
	if err != nil {
		h.T.Fatal(err)
	}
	p := filepath.Join(dir, name)
	c := exec.Command("go", "build", "-o", p, "./cmd/"+name)
	c.Dir = os.Getenv("VERIF_REPO")
	if c.Dir == "" {
		c.Dir = "/repo"
	}
	if out, err := c.CombinedOutput(); err != nil {
		h.T.Fatalf("cannot build %s: %s\n%s", name, err, out)
	}
	if tools.m == nil {
		tools.m = map[string]string{}
	}
	tools.m[name] = p
	return p
}

// Run runs a command in a directory and returns what it printed.
func Run(dir, bin string, args ...string) (string, error) {
	c := exec.Command(bin, args...)
	c.Dir = dir
	out, err := c.CombinedOutput()
	return string(out), err
}

// TempDir makes a directory which is removed after the test.
func (h *H) TempDir() string {
	d, err := os.MkdirTemp("", "vhd")
	if err != nil {
		h.T.Fatal(err)
	}
	h.T.Cleanup(func() { os.RemoveAll(d) })
	return d
}

func WriteFile(path string, b []byte) string {
	if err := os.WriteFile(path, b, 0644); err != nil {
		panic(err)
	}
	return path
}

// Diff shows where two texts differ.
func Diff(got, want string) string {
	if got == want {
		return ""
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	f := func(s string) string {
		lo := i - 60
		if lo < 0 {
			lo = 0
		}
		return cut(s[lo:], 300)
	}
	return fmt.Sprintf("differs at byte %d:\n got ..%s\nwant ..%s", i, f(got), f(want))
}
