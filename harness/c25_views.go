//verif: prop=C25 pkg=internal/iunsafe
package iunsafe_test

import (
	"encoding/binary"
	"fmt"
	"testing"

	"github.com/squizzling/osmindex/internal/iunsafe"
	"github.com/squizzling/osmindex/internal/zverif/vh"
)

type c25pair struct{ A, B uint32 }
type c25odd struct{ A, B, C uint8 }

func TestVerif_C25_views(t *testing.T) {
	h := vh.Start(t, "C25", "byte buffers of 0-300 bytes (any length, any spare capacity, parts of larger buffers) and number lists, read and written through every view; non-trivial: distinct buffers")
	h.Budget(3e9, 30e9)
	for h.More(1000) {
		n, spare, from := h.Size(300), h.Intn(40), 8*h.Intn(3)
		data := h.Bytes(from + n + spare)
		h.Case(fmt.Sprintf("%d bytes with %d spare from %d: %x", n, spare, from, data), func() string {
			words := make([]uint64, (len(data)+7)/8+1) // aligned memory
			mem := iunsafe.Uint64SliceAsByteSlice(words)
			if len(mem) != 8*len(words) {
				return fmt.Sprintf("%d numbers seen as %d bytes", len(words), len(mem))
			}
			copy(mem, data)
			for i := range words {
				var w [8]byte
				binary.LittleEndian.PutUint64(w[:], words[i])
				for j := range w {
					if w[j] != mem[8*i+j] {
						return fmt.Sprintf("byte %d of number %d", j, i)
					}
				}
			}
			src := mem[from : from+n]
			xs := iunsafe.ByteSliceAsInt64Slice(src)
			if len(xs) != n/8 {
				return fmt.Sprintf("%d bytes seen as %d numbers", n, len(xs))
			}
			for i := range xs {
				if uint64(xs[i]) != binary.LittleEndian.Uint64(src[8*i:]) {
					return fmt.Sprintf("number %d is %d", i, xs[i])
				}
				xs[i] ^= int64(i)*77 + 5
				if uint64(xs[i]) != binary.LittleEndian.Uint64(src[8*i:]) {
					return fmt.Sprintf("writing number %d does not change the bytes", i)
				}
			}
			back := iunsafe.Int64SliceAsByteSlice(xs)
			if len(back) != 8*len(xs) {
				return fmt.Sprintf("%d numbers seen as %d bytes", len(xs), len(back))
			}
			if len(back) > 0 {
				if &back[0] != &src[0] {
					return "the bytes of the numbers are other memory"
				}
				src[len(back)-1] ^= 255
				if back[len(back)-1] != src[len(back)-1] {
					return "the views differ"
				}
			}
			// generic views
			var a []int64
			var u []uint32
			var b []byte
			var p []c25pair
			var o []c25odd
			iunsafe.ByteSliceAsArbSlice(src, &a)
			iunsafe.ByteSliceAsArbSlice(src, &u)
			iunsafe.ByteSliceAsArbSlice(src, &b)
			iunsafe.ByteSliceAsArbSlice(src, &p)
			iunsafe.ByteSliceAsArbSlice(src, &o)
			got := fmt.Sprint(len(a), len(u), len(b), len(p), len(o), cap(a), cap(u), cap(b), cap(p), cap(o))
			want := fmt.Sprint(n/8, n/4, n, n/8, n/3, n/8, n/4, n, n/8, n/3)
			if got != want {
				return "lengths and capacities of the views are " + got + ", want " + want
			}
			for i := range a {
				if uint64(a[i]) != binary.LittleEndian.Uint64(src[8*i:]) || p[i].A != binary.LittleEndian.Uint32(src[8*i:]) || p[i].B != binary.LittleEndian.Uint32(src[8*i+4:]) {
					return fmt.Sprintf("element %d", i)
				}
			}
			for i := range o {
				if o[i] != (c25odd{src[3*i], src[3*i+1], src[3*i+2]}) {
					return fmt.Sprintf("element %d of three bytes", i)
				}
			}
			if len(u) > 0 {
				u[0]++
				if u[0] != binary.LittleEndian.Uint32(src) {
					return "writing through a generic view does not change the bytes"
				}
			}
			keep := append([]byte(nil), mem...)
			a = append(a, -1)
			b = append(b, 255)
			o = append(o, c25odd{255, 255, 255})
			for i := range mem {
				if mem[i] != keep[i] {
					return fmt.Sprintf("appending to a view changed byte %d of the memory", i)
				}
			}
			return ""
		})
	}
}

func TestVerif_C25_refusals(t *testing.T) {
	h := vh.Start(t, "C25", "targets that are not pointers to a slice; non-trivial: distinct targets")
	h.Budget(1e9, 1e9)
	var n int
	var s []int64
	var arr [4]int64
	var m map[int]int
	var f func()
	for name, x := range map[string]interface{}{"a number": 5, "a slice": s, "a pointer to a number": &n, "a pointer to an array": &arr, "a pointer to a struct": &c25pair{}, "a pointer to a map": &m, "a function": f, "text": "x", "a pointer to a pointer": func() **[]int64 { p := &s; return &p }()} {
		x := x
		h.Case(name, func() string {
			if vh.Panics(func() { iunsafe.ByteSliceAsArbSlice(make([]byte, 16), x) }) == "" {
				return "accepted"
			}
			return ""
		})
	}
}
