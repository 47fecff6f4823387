//verif: prop=C03 pkg=internal/pb

package pb_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/squizzling/osmindex/internal/pb"
	"github.com/squizzling/osmindex/internal/zverif/vh"
)

type embedder struct {
	name  string
	n     int // size of the reserved prefix
	limit int
	f     func(id uint64, e pb.Embedder, buf []byte) []byte
	i     func(b []byte, v int)
	r     func(b []byte) []byte
}

var embedders = []embedder{
	{"Embed128", 1, 1 << 7, pb.Embed128, pb.EmbedInt128, pb.Reserve128},
	{"Embed16384", 2, 1 << 14, pb.Embed16384, pb.EmbedInt16384, pb.Reserve16384},
	{"Embed2097152", 3, 1 << 21, pb.Embed2097152, pb.EmbedInt2097152, pb.Reserve2097152},
	{"Embed268435456", 4, 1 << 28, pb.Embed268435456, pb.EmbedInt268435456, pb.Reserve268435456},
}

// prefix reads a (possibly padded) length of exactly n bytes.
func prefix(b []byte, n int) (int, bool) {
	v := 0
	for i := 0; i < n; i++ {
		v |= int(b[i]&0x7f) << uint(7*i)
		if (b[i] >= 0x80) != (i < n-1) {
			return 0, false
		}
	}
	return v, true
}

func TestVerif_C03_embed(t *testing.T) {
	h := vh.Start(t, "C03", "payloads around every size boundary, written by embedders that append in one or many steps to buffers with and without spare capacity; non-trivial: distinct (kind, size, id, prefix)")
	h.Budget(4e9, 60e9)
	sizes := []int{0, 1, 2, 126, 127, 128, 129, 255, 256, 257, 16382, 16383, 16384, 16385, 20000, 2097150, 2097151, 2097152, 2097153}
	round := 0
	for h.More(200) {
		e := embedders[h.Intn(len(embedders))]
		size := sizes[h.Intn(len(sizes))]
		if h.Intn(2) == 0 {
			size = h.Intn(300)
		} else if h.Intn(3) == 0 {
			size = h.Intn(40000)
		}
		if round++; size > 1000000 && round%20 != 0 {
			continue
		}
		id := uint64(h.Intn(20) + 1)
		pre, spare, step := h.Bytes(h.Intn(6)), h.Intn(100), 1+h.Intn(size/3+1)
		key := fmt.Sprintf("%s id=%d size=%d prefix=%x spare=%d step=%d", e.name, id, size, pre, spare, step)
		h.Case(key, func() string {
			payload := h.Bytes(size)
			buf := append(make([]byte, 0, len(pre)+spare), pre...)
			var got []byte
			msg := vh.Panics(func() {
				got = e.f(id, func(b []byte) []byte {
					for i := 0; i < size; i += step {
						j := i + step
						if j > size {
							j = size
						}
						b = append(b, payload[i:j]...)
					}
					return b
				}, buf)
			})
			if size >= e.limit {
				if msg == "" {
					return "a payload which is too large was written"
				}
				return ""
			}
			if msg != "" {
				return msg
			}
			head := binary.AppendUvarint(append([]byte(nil), pre...), id<<3|2)
			if len(got) != len(head)+e.n+size || !bytes.Equal(got[:len(head)], head) {
				return fmt.Sprintf("wrong start or size: %x...", got[:len(head)])
			}
			if v, ok := prefix(got[len(head):], e.n); !ok || v != size {
				return fmt.Sprintf("the length prefix is %x", got[len(head):len(head)+e.n])
			}
			if !bytes.Equal(got[len(head)+e.n:], payload) {
				return "the payload is damaged"
			}
			n := len(head)
			if back := pb.ReadBytes(got, &n); !bytes.Equal(back, payload) || n != len(got) {
				return "not read back"
			}
			return ""
		})
	}
}

func TestVerif_C03_prefix(t *testing.T) {
	h := vh.Start(t, "C03", "every reserved prefix filled with lengths around every boundary; non-trivial: distinct (kind, length)")
	h.Budget(1e9, 10e9)
	for h.More(1000) {
		e := embedders[h.Intn(len(embedders))]
		v := h.Intn(1 << uint(h.Intn(30)+1))
		if h.Intn(2) == 0 {
			v = e.limit + h.Intn(5) - 3
		}
		if h.Intn(4) == 0 {
			v = 1<<uint(h.Intn(35)) + h.Intn(3) - 1
		}
		h.Case(fmt.Sprintf("%s %d", e.name, v), func() string {
			b := e.r([]byte{1, 2, 3})
			if len(b) != 3+e.n || !bytes.Equal(b[:3], []byte{1, 2, 3}) {
				return fmt.Sprintf("reserved %x", b)
			}
			b = append(b, 9, 9)
			msg := vh.Panics(func() { e.i(b[3:], v) })
			if v >= e.limit {
				if msg == "" {
					return fmt.Sprintf("length %d written as %x", v, b[3:])
				}
				return ""
			}
			if g, ok := prefix(b[3:], e.n); msg != "" || !ok || g != v || !bytes.Equal(b[:3], []byte{1, 2, 3}) || !bytes.Equal(b[3+e.n:], []byte{9, 9}) {
				return fmt.Sprintf("%s gives %x", msg, b)
			}
			return ""
		})
	}
}

func TestVerif_C03_write(t *testing.T) {
	h := vh.Start(t, "C03", "byte strings of 0-40000 bytes written as buffers, strings and tagged buffers; non-trivial: distinct (size, prefix)")
	h.Budget(2e9, 20e9)
	for h.More(500) {
		size := h.Size(300)
		if h.Intn(10) == 0 {
			size = []int{127, 128, 16383, 16384, 40000, 2097151, 2097152}[h.Intn(7)]
		}
		x := h.Bytes(size)
		pre, spare := h.Bytes(h.Intn(5)), h.Intn(200)
		id := uint64(h.Intn(40))
		k := x
		if len(k) > 50 {
			k = k[:50]
		}
		h.Case(fmt.Sprintf("%d bytes %x.. after %x spare %d id %d", size, k, pre, spare, id), func() string {
			mk := func() []byte { return append(make([]byte, 0, len(pre)+spare), pre...) }
			want := append(binary.AppendUvarint(append([]byte(nil), pre...), uint64(size)), x...)
			if g := pb.EncodeBuffer(mk(), x); !bytes.Equal(g, want) {
				return "EncodeBuffer differs"
			}
			if g := pb.EncodeString(mk(), string(x)); !bytes.Equal(g, want) {
				return "EncodeString differs"
			}
			want2 := append(binary.AppendUvarint(binary.AppendUvarint(append([]byte(nil), pre...), id<<3|2), uint64(size)), x...)
			if g := pb.EncodeIdBuffer(mk(), id, x); !bytes.Equal(g, want2) {
				return "EncodeIdBuffer differs"
			}
			want3 := binary.AppendUvarint(binary.AppendUvarint(append([]byte(nil), pre...), id<<3), uint64(size)*77777)
			if g := pb.EncodeIdVarInt(mk(), id, uint64(size)*77777); !bytes.Equal(g, want3) {
				return "EncodeIdVarInt differs"
			}
			return ""
		})
	}
}

func TestVerif_C03_readSkip(t *testing.T) {
	h := vh.Start(t, "C03", "length prefixes (correct, one off, huge, wrapping to negative, cut short) at any position with spare capacity behind the data; non-trivial: distinct inputs")
	h.Budget(3e9, 40e9)
	for h.More(2000) {
		size := h.Size(200)
		x := h.Bytes(size)
		pre, post := h.Bytes(h.Intn(4)), h.Bytes(h.Intn(4))
		l := uint64(size)
		switch h.Intn(6) {
		case 0:
			l = uint64(size + len(post) + h.Intn(3))
		case 1:
			l = h.U64()
		case 2:
			l = -uint64(h.Intn(300))
		case 3:
			l = 1<<63 - uint64(h.Intn(300)) + 100
		}
		b := binary.AppendUvarint(append([]byte(nil), pre...), l)
		lenEnd := len(b)
		b = append(append(b, x...), post...)
		if h.Intn(8) == 0 {
			b = b[:len(pre)+h.Intn(len(b)-len(pre)+1)]
		}
		h.Case(fmt.Sprintf("%x at %d", b, len(pre)), func() string {
			buf := append(append([]byte(nil), b...), make([]byte, 400)...)[:len(b)]
			ok := len(b) >= lenEnd && l <= uint64(len(b)-lenEnd)
			type rd struct {
				name string
				f    func(b []byte, n *int) []byte
			}
			for _, r := range []rd{
				{"ReadBytes", pb.ReadBytes},
				{"DecodeBytes", pb.DecodeBytes},
				{"DecodeString", func(b []byte, n *int) []byte { return []byte(pb.DecodeString(b, n)) }},
				{"DecodeStringOpt", func(b []byte, n *int) []byte { return []byte(*pb.DecodeStringOpt(b, n)) }},
				{"SkipBytes", func(b []byte, n *int) []byte { pb.SkipBytes(b, n); return nil }},
			} {
				n := len(pre)
				var got []byte
				msg := vh.Panics(func() { got = r.f(buf, &n) })
				if !ok {
					if msg == "" {
						return fmt.Sprintf("%s accepts it, moving to %d", r.name, n)
					}
					continue
				}
				if msg != "" || n != lenEnd+int(l) {
					return fmt.Sprintf("%s: %s moved to %d, want %d", r.name, msg, n, lenEnd+int(l))
				}
				if r.name != "SkipBytes" && !bytes.Equal(got, b[lenEnd:lenEnd+int(l)]) {
					return fmt.Sprintf("%s returned %x", r.name, got)
				}
			}
			return ""
		})
	}
}
