//verif: prop=C02 pkg=internal/pb

package pb_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"testing"

	"github.com/squizzling/osmindex/internal/pb"
	"github.com/squizzling/osmindex/internal/zverif/vh"
)

func zig(x int64) uint64 {
	if x >= 0 {
		return 2 * uint64(x)
	}
	return 2*uint64(-(x+1)) + 1
}

func body(vs []uint64) []byte {
	var b []byte
	for _, v := range vs {
		b = binary.AppendUvarint(b, v)
	}
	return b
}

func lenPrefixed(b []byte) []byte {
	return append(binary.AppendUvarint(nil, uint64(len(b))), b...)
}

type kind struct {
	name string
	// raw builds the standard encoding (without length) from 64-bit seeds, and the decoded list
	raw func(xs []int64) ([]uint64, interface{})
	enc func(buf []byte, list interface{}) []byte
	// encBare is set when the encoder writes no length prefix
	bare bool
	dec  func(buf []byte, next *int) interface{}
}

func i32s(xs []int64) []int32 {
	o := make([]int32, len(xs))
	for i, x := range xs {
		o[i] = int32(x)
	}
	return o
}

var kinds = []kind{
	{"S32Packed", func(xs []int64) (vs []uint64, l interface{}) {
		o := i32s(xs)
		for _, x := range o {
			vs = append(vs, zig(int64(x)))
		}
		return vs, o
	}, func(b []byte, l interface{}) []byte { return pb.EncodeS32Packed(b, l.([]int32)) }, false,
		func(b []byte, n *int) interface{} { return pb.DecodeS32Packed(b, n) }},
	{"S32PackedDelta", func(xs []int64) (vs []uint64, l interface{}) {
		o := i32s(xs)
		p := int32(0)
		for _, x := range o {
			vs = append(vs, zig(int64(x-p)))
			p = x
		}
		return vs, o
	}, func(b []byte, l interface{}) []byte { return pb.EncodeS32PackedDelta(b, l.([]int32)) }, false, nil},
	{"I32Packed", func(xs []int64) (vs []uint64, l interface{}) {
		o := i32s(xs)
		for _, x := range o {
			vs = append(vs, uint64(int64(x)))
		}
		return vs, o
	}, func(b []byte, l interface{}) []byte { return pb.EncodeI32Packed(b, l.([]int32)) }, false,
		func(b []byte, n *int) interface{} { return pb.DecodeI32Packed(b, n) }},
	{"I32PackedFunc", func(xs []int64) (vs []uint64, l interface{}) {
		o := i32s(xs)
		for _, x := range o {
			vs = append(vs, uint64(int64(x)))
		}
		return vs, o
	}, func(b []byte, l interface{}) []byte { return pb.EncodeI32PackedFunc(l.([]int32))(b) }, true,
		func(b []byte, n *int) interface{} { return pb.DecodeI32Packed(b, n) }},
	{"U32PackedFunc", func(xs []int64) (vs []uint64, l interface{}) {
		o := make([]uint32, len(xs))
		for i, x := range xs {
			o[i] = uint32(x)
			vs = append(vs, uint64(o[i]))
		}
		return vs, o
	}, func(b []byte, l interface{}) []byte { return pb.EncodeU32PackedFunc(l.([]uint32))(b) }, true,
		func(b []byte, n *int) interface{} { return pb.DecodeU32Packed(b, n) }},
	{"S64PackedDelta", func(xs []int64) (vs []uint64, l interface{}) {
		p := int64(0)
		for _, x := range xs {
			vs = append(vs, zig(x-p))
			p = x
		}
		return vs, xs
	}, func(b []byte, l interface{}) []byte { return pb.EncodeS64PackedDelta(b, l.([]int64)) }, false,
		func(b []byte, n *int) interface{} { return pb.DecodeS64PackedDelta(b, n) }},
	{"S64PackedDeltaFunc", func(xs []int64) (vs []uint64, l interface{}) {
		p := int64(0)
		for _, x := range xs {
			vs = append(vs, zig(x-p))
			p = x
		}
		return vs, xs
	}, func(b []byte, l interface{}) []byte { return pb.EncodeS64PackedDeltaFunc(l.([]int64))(b) }, true,
		func(b []byte, n *int) interface{} { return pb.DecodeS64PackedDelta(b, n) }},
	{"S64Packed", func(xs []int64) (vs []uint64, l interface{}) {
		for _, x := range xs {
			vs = append(vs, zig(x))
		}
		return vs, xs
	}, nil, false,
		func(b []byte, n *int) interface{} { return pb.DecodeS64Packed(b, n) }},
	{"U64Packed", func(xs []int64) (vs []uint64, l interface{}) {
		o := make([]uint64, len(xs))
		for i, x := range xs {
			o[i] = uint64(x)
			vs = append(vs, uint64(x))
		}
		return vs, o
	}, func(b []byte, l interface{}) []byte { return pb.EncodeU64Packed(l.([]uint64))(b) }, true,
		func(b []byte, n *int) interface{} { return pb.DecodeU64Packed(b, n) }},
}

func same(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	return x.Len() == y.Len() && (x.Len() == 0 || reflect.DeepEqual(a, b))
}

func clone(l interface{}) interface{} {
	v := reflect.ValueOf(l)
	o := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
	reflect.Copy(o, v)
	return o.Interface()
}

func genList(h *vh.H, max int) []int64 {
	n := h.Size(max)
	xs := make([]int64, n)
	walk := h.Intn(3) == 0
	for i := range xs {
		xs[i] = h.I64()
		if walk && i > 0 {
			xs[i] = xs[i-1] + int64(h.Intn(200)) - 100
		}
	}
	return xs
}

func TestVerif_C02_lists(t *testing.T) {
	h := vh.Start(t, "C02", "lists of 0-300 numbers of all magnitudes and signs (random and small-step walks), every kind, behind a prefix and before trailing bytes; non-trivial: distinct (kind, list)")
	h.Budget(4e9, 60e9)
	for h.More(2000) {
		xs := genList(h, 300)
		k := kinds[h.Intn(len(kinds))]
		pre, post := h.Bytes(h.Intn(4)), h.Bytes(h.Intn(4))
		spare := h.Intn(40)
		h.Case(fmt.Sprintf("%s %v prefix=%x after=%x spare=%d", k.name, xs, pre, post, spare), func() string {
			vs, list := k.raw(xs)
			payload := body(vs)
			if k.enc != nil {
				keep := clone(list)
				buf := make([]byte, len(pre), len(pre)+spare)
				copy(buf, pre)
				got := k.enc(buf, list)
				want := append(append([]byte(nil), pre...), payload...)
				if !k.bare {
					want = append(append([]byte(nil), pre...), lenPrefixed(payload)...)
				}
				if !bytes.Equal(got, want) {
					return fmt.Sprintf("encoded %x, want %x", got, want)
				}
				if !same(list, keep) {
					return fmt.Sprintf("the encoder changed its input to %v", list)
				}
			}
			if k.dec != nil {
				b := append(append(append([]byte(nil), pre...), lenPrefixed(payload)...), post...)
				n := len(pre)
				got := k.dec(b, &n)
				if !same(got, list) {
					return fmt.Sprintf("decoded %v, want %v", got, list)
				}
				if n != len(b)-len(post) {
					return fmt.Sprintf("decoder stopped at %d, want %d", n, len(b)-len(post))
				}
			}
			return ""
		})
	}
}

func TestVerif_C02_malformed(t *testing.T) {
	h := vh.Start(t, "C02", "packed lists cut short or with a wrong length prefix, every decoder: refused, never decoded to something else; non-trivial: distinct inputs")
	h.Budget(2e9, 20e9)
	for h.More(1000) {
		k := kinds[h.Intn(len(kinds))]
		if k.dec == nil {
			continue
		}
		vs, _ := k.raw(genList(h, 20))
		payload := body(vs)
		if len(payload) == 0 {
			continue
		}
		// the last number loses its end
		payload[len(payload)-1] |= 0x80
		b := lenPrefixed(payload)
		if h.Intn(2) == 0 {
			b = append(b, byte(h.Intn(100)))
		}
		if h.Intn(3) == 0 {
			payload[len(payload)-1] &= 0x7f
			b = append(binary.AppendUvarint(nil, uint64(len(payload)+1+h.Intn(3))), payload...)
			b = append(b, 1, 1, 1, 1)[:len(b)]
		}
		h.Case(fmt.Sprintf("%s %x", k.name, b), func() string {
			n := 0
			var got interface{}
			if vh.Panics(func() { got = k.dec(b, &n) }) == "" {
				return fmt.Sprintf("decoded %v ending at %d, must be refused", got, n)
			}
			return ""
		})
	}
}

func TestVerif_C02_single(t *testing.T) {
	h := vh.Start(t, "C02", "single numbers of every kind at any position; non-trivial: distinct values")
	h.Budget(1e9, 10e9)
	for h.More(1000) {
		x := h.I64()
		pre := h.Bytes(h.Intn(4))
		h.Case(fmt.Sprintf("%d after %x", x, pre), func() string {
			at := func(v uint64) ([]byte, *int, int) {
				b := binary.AppendUvarint(append([]byte(nil), pre...), v)
				n := len(pre)
				return append(b, 7), &n, len(b)
			}
			type c struct {
				name      string
				v         uint64
				got, want interface{}
				n         int
				end       int
			}
			var cs []c
			add := func(name string, v uint64, want interface{}, f func(b []byte, n *int) interface{}) {
				b, n, e := at(v)
				g := f(b, n)
				cs = append(cs, c{name, v, g, want, *n, e})
			}
			s, w, u := int32(x), int32(x), uint32(x)
			u64 := uint64(x)
			add("S32", zig(int64(s)), s, func(b []byte, n *int) interface{} { return pb.DecodeS32(b, n) })
			add("I32", uint64(int64(w)), w, func(b []byte, n *int) interface{} { return pb.DecodeI32(b, n) })
			add("U32", uint64(u), u, func(b []byte, n *int) interface{} { return pb.DecodeU32(b, n) })
			add("S64", zig(x), x, func(b []byte, n *int) interface{} { return pb.DecodeS64(b, n) })
			add("I64", u64, x, func(b []byte, n *int) interface{} { return pb.DecodeI64(b, n) })
			add("U64", u64, u64, func(b []byte, n *int) interface{} { return pb.DecodeU64(b, n) })
			add("S32Opt", zig(int64(s)), s, func(b []byte, n *int) interface{} { return *pb.DecodeS32Opt(b, n) })
			add("I32Opt", uint64(int64(w)), w, func(b []byte, n *int) interface{} { return *pb.DecodeI32Opt(b, n) })
			add("U32Opt", uint64(u), u, func(b []byte, n *int) interface{} { return *pb.DecodeU32Opt(b, n) })
			add("S64Opt", zig(x), x, func(b []byte, n *int) interface{} { return *pb.DecodeS64Opt(b, n) })
			add("I64Opt", u64, x, func(b []byte, n *int) interface{} { return *pb.DecodeI64Opt(b, n) })
			add("U64Opt", u64, u64, func(b []byte, n *int) interface{} { return *pb.DecodeU64Opt(b, n) })
			for _, e := range cs {
				if e.got != e.want || e.n != e.end {
					return fmt.Sprintf("%s of %d: %v ending at %d, want %v at %d", e.name, e.v, e.got, e.n, e.want, e.end)
				}
			}
			return ""
		})
	}
}

func TestVerif_C02_zeroTerminated(t *testing.T) {
	h := vh.Start(t, "C02", "zero-terminated lists without leading zero and equal neighbours (deltas of all magnitudes, wrapping), followed by arbitrary bytes; non-trivial: distinct lists")
	h.Budget(2e9, 30e9)
	for h.More(1000) {
		var xs []int64
		for _, x := range genList(h, 100) {
			last := int64(0)
			if len(xs) > 0 {
				last = xs[len(xs)-1]
			}
			if x != last {
				xs = append(xs, x)
			}
		}
		pre, post := h.Bytes(h.Intn(4)), h.Bytes(h.Intn(5))
		h.Case(fmt.Sprintf("%v prefix %x, before %x", xs, pre, post), func() string {
			var vs []uint64
			p := int64(0)
			for _, x := range xs {
				vs = append(vs, zig(x-p))
				p = x
			}
			want := append(append([]byte(nil), pre...), body(append(vs, 0))...)
			got := pb.EncodeS64PackedDeltaZero(append(make([]byte, 0, len(pre)+h.Intn(30)), pre...), xs)
			if !bytes.Equal(got, want) {
				return fmt.Sprintf("encoded %x, want %x", got, want)
			}
			back := pb.DecodeS64PackedDeltaZero(append(want[len(pre):], post...))
			if !same(back, xs) {
				return fmt.Sprintf("decoded %v", back)
			}
			return ""
		})
	}
}
