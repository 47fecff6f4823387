package vh

import (
	"encoding/binary"
	"fmt"
	"path/filepath"
)

// ORange is a range of a node index: ids First.. with their locations (0: gap).
type ORange struct {
	First uint64
	Locs  []int64
}

func (r *ORange) Last() uint64 { return r.First + uint64(len(r.Locs)) - 1 }

// EncNodeIndex lays out a node index file.
func EncNodeIndex(rs []ORange) (b []byte) {
	put := func(v uint64) {
		var w [8]byte
		binary.LittleEndian.PutUint64(w[:], v)
		b = append(b, w[:]...)
	}
	put(1)
	put(uint64(len(rs)))
	off := uint64(0)
	for _, r := range rs {
		put(r.First)
		put(off<<24 | uint64(len(r.Locs)))
		off += uint64(len(r.Locs))
	}
	for _, r := range rs {
		for _, l := range r.Locs {
			put(uint64(l))
		}
	}
	return
}

// DecNodeIndex reads a node index file, checking its shape.
func DecNodeIndex(b []byte) (rs []ORange, err error) {
	if len(b) < 16 || len(b)%8 != 0 {
		return nil, fmt.Errorf("node index of %d bytes", len(b))
	}
	at := func(i uint64) uint64 { return binary.LittleEndian.Uint64(b[i*8:]) }
	words := uint64(len(b) / 8)
	if at(0) != 1 {
		return nil, fmt.Errorf("version %d", at(0))
	}
	n := at(1)
	if n > words || 2+2*n > words {
		return nil, fmt.Errorf("%d entries in %d bytes", n, len(b))
	}
	next := uint64(0)
	for i := uint64(0); i < n; i++ {
		first, co := at(2+2*i), at(3+2*i)
		off, cnt := co>>24, co&(1<<24-1)
		if off != next {
			return nil, fmt.Errorf("entry %d (first id %d, %d ids) at slot %d, want slot %d", i, first, cnt, off, next)
		}
		next += cnt
		r := ORange{First: first}
		for k := uint64(0); k < cnt; k++ {
			p := 2 + 2*n + off + k
			if p >= words {
				return nil, fmt.Errorf("entry %d (first id %d, %d ids at slot %d) reaches beyond the %d locations", i, first, cnt, off, words-2-2*n)
			}
			r.Locs = append(r.Locs, int64(at(p)))
		}
		rs = append(rs, r)
	}
	if 2+2*n+next != words {
		return nil, fmt.Errorf("%d slots in the entries, %d locations in the file", next, words-2-2*n)
	}
	return
}

// Ranges draws ascending disjoint ranges; some ids may be huge.
func (h *H) Ranges(max int) (rs []ORange) {
	next := uint64(h.Intn(4))
	if h.Intn(4) == 0 {
		next = h.U64() >> 1
	}
	for n := h.Size(max); n > 0; n-- {
		r := ORange{First: next}
		c := 1 + h.Size(20)
		if h.Intn(3) == 0 {
			c = 1
		}
		if h.Intn(20) == 0 {
			c = 100 + h.Intn(200)
		}
		for k := 0; k < c; k++ {
			l := h.I64()
			if h.Intn(2) == 0 {
				l = -int64(next) - int64(k) - 1
			}
			if h.Intn(8) == 0 {
				l = 0
			}
			r.Locs = append(r.Locs, l)
		}
		rs = append(rs, r)
		next = r.Last() + 1 + uint64(h.Intn(4))
		if h.Intn(6) == 0 {
			next += uint64(h.Intn(1000000))
		}
	}
	return
}

func DumpRanges(rs []ORange) string {
	s := ""
	for i := range rs {
		s += fmt.Sprintf("%d-%d%v ", rs[i].First, rs[i].Last(), rs[i].Locs)
	}
	return s
}

// ---------------------------------------------------------------- way index

type OWayLoc struct {
	ID   int64
	Locs []int64 // no leading zero, no equal neighbours
}

// EncWayIndex lays out a way index file; every list starts on the alignment and is followed by 1..alignment zeros.
func EncWayIndex(ws []OWayLoc, shift uint) (b []byte) {
	put := func(v uint64) {
		var w [8]byte
		binary.LittleEndian.PutUint64(w[:], v)
		b = append(b, w[:]...)
	}
	put(uint64(len(ws)))
	put(uint64(shift))
	var loc []byte
	a := 1 << shift
	for _, w := range ws {
		put(uint64(w.ID)<<33 | uint64(len(loc)>>shift))
		loc = append(append(loc, PackDelta(w.Locs)...), 0)
		loc = append(loc, make([]byte, a-len(loc)%a)...)
	}
	return append(b, loc...)
}

// DecWayIndex reads a way index file, checking its shape.
func DecWayIndex(b []byte) (ws []OWayLoc, shift uint, err error) {
	if len(b) < 16 {
		return nil, 0, fmt.Errorf("way index of %d bytes", len(b))
	}
	n := binary.LittleEndian.Uint64(b)
	s := binary.LittleEndian.Uint64(b[8:])
	if s > 40 {
		return nil, 0, fmt.Errorf("alignment shift %d", s)
	}
	shift = uint(s)
	if n > uint64(len(b)) || 16+8*n > uint64(len(b)) {
		return nil, 0, fmt.Errorf("%d ways in %d bytes", n, len(b))
	}
	loc := b[16+8*n:]
	next := uint64(0)
	for i := uint64(0); i < n; i++ {
		d := binary.LittleEndian.Uint64(b[16+8*i:])
		w := OWayLoc{ID: int64(d >> 33)}
		o := d & (1<<33 - 1) << shift
		if o < next {
			return ws, shift, fmt.Errorf("way %d (entry %d) at byte %d, inside the data of the way before it which ends at %d", w.ID, i, o, next)
		}
		if o > next+2<<shift {
			return ws, shift, fmt.Errorf("way %d (entry %d) at byte %d, but the data before it ends at %d", w.ID, i, o, next)
		}
		p := uint64(0)
		for {
			if o >= uint64(len(loc)) {
				return ws, shift, fmt.Errorf("way %d (entry %d): list reaches byte %d of %d", w.ID, i, o, len(loc))
			}
			v, k := binary.Uvarint(loc[o:])
			if k <= 0 {
				return ws, shift, fmt.Errorf("way %d (entry %d): bad number at byte %d", w.ID, i, o)
			}
			o += uint64(k)
			if v == 0 {
				break
			}
			p += v>>1 ^ -(v & 1)
			w.Locs = append(w.Locs, int64(p))
		}
		next = o
		ws = append(ws, w)
	}
	return
}

// WayLocs draws ways with ascending ids.
func (h *H) WayLocs(max int) (ws []OWayLoc) {
	next := int64(h.Intn(4))
	if h.Intn(4) == 0 {
		next = int64(h.Intn(1 << 30))
	}
	for n := h.Size(max); n > 0; n-- {
		w := OWayLoc{ID: next}
		last := int64(0)
		for k := h.Size(40); k > 0; k-- {
			l := h.I64()
			if h.Intn(2) == 0 {
				l = last + int64(h.Intn(2000)) - 1000
			}
			if l != last {
				w.Locs = append(w.Locs, l)
				last = l
			}
		}
		ws = append(ws, w)
		next += int64(1 + h.Intn(3))
		if h.Intn(6) == 0 {
			next += int64(h.Intn(100000))
		}
	}
	if h.Intn(6) == 0 && len(ws) > 0 {
		ws[len(ws)-1].ID = 1<<31 - 1
	}
	return
}

// Put stores bytes under a directory.
func Put(dir, name string, b []byte) string { return WriteFile(filepath.Join(dir, name), b) }

// RawFrames cuts a file into its types and undecoded blobs.
func RawFrames(b []byte) (out []OBlob, err error) {
	for len(b) > 0 {
		if len(b) < 4 {
			return out, fmt.Errorf("%d bytes left after %d blocks", len(b), len(out))
		}
		n := int(binary.BigEndian.Uint32(b))
		if n > len(b)-4 {
			return out, fmt.Errorf("header %d has %d bytes, %d are left", len(out), n, len(b)-4)
		}
		fs, e := fields(b[4 : 4+n])
		if e != nil {
			return out, e
		}
		b = b[4+n:]
		x, size := OBlob{}, 0
		for _, f := range fs {
			switch {
			case f.id == 1 && f.wire == 2:
				x.Type = string(f.b)
			case f.id == 3 && f.wire == 0:
				size = int(f.v)
			default:
				return out, fmt.Errorf("header %d: field %d/%d", len(out), f.id, f.wire)
			}
		}
		if size < 0 || size > len(b) {
			return out, fmt.Errorf("block %d has %d bytes, %d are left", len(out), size, len(b))
		}
		x.Data = b[:size]
		b = b[size:]
		out = append(out, x)
	}
	return
}
