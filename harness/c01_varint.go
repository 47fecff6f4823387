//verif: prop=C01 pkg=internal/pb

package pb_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"testing"

	"github.com/squizzling/osmindex/internal/pb"
	"github.com/squizzling/osmindex/internal/zverif/vh"
)

// refDecode is an independent reading of the protobuf definition.
func refDecode(b []byte, at int) (v uint64, n int, ok bool) {
	if at < 0 || at > len(b) {
		return 0, 0, false
	}
	for i := 0; i < 10 && at+i < len(b); i++ {
		x := b[at+i]
		if i == 9 && x > 1 {
			return 0, 0, false
		}
		v |= uint64(x&0x7f) << (7 * uint(i))
		if x < 0x80 {
			return v, i + 1, true
		}
	}
	return 0, 0, false
}

func TestVerif_C01_encode(t *testing.T) {
	h := vh.Start(t, "C01", "64-bit values of every magnitude and every power-of-two boundary appended to buffers with and without spare capacity; non-trivial: distinct (value, prefix length, capacity)")
	try := func(v uint64, pre, spare int) {
		h.Case(fmt.Sprintf("v=%d prefix=%d spare=%d", v, pre, spare), func() string {
			buf := make([]byte, pre, pre+spare)
			for i := range buf {
				buf[i] = byte(i*7 + 1)
			}
			want := binary.AppendUvarint(append([]byte(nil), buf...), v)
			got := pb.EncodeVarInt(buf, v)
			if !bytes.Equal(got, want) {
				return fmt.Sprintf("encoded %x, want %x", got, want)
			}
			n := pre
			if back := pb.DecodeVarInt(got, &n); back != v || n != len(got) {
				return fmt.Sprintf("decoded %d ending at %d, want %d ending at %d", back, n, v, len(got))
			}
			return ""
		})
	}
	for k := 0; k < 64; k++ {
		for d := -2; d <= 2; d++ {
			try(uint64(1)<<uint(k)+uint64(d), 3, k%13)
		}
	}
	try(math.MaxUint64, 0, 0)
	for h.More(2000) {
		if h.Intn(50) == 0 && !h.More(0) {
			break
		}
		try(h.U64(), h.Intn(5), h.Intn(14))
	}
}

func TestVerif_C01_decode(t *testing.T) {
	h := vh.Start(t, "C01", "byte strings biased to long runs of continuation bytes, read at any position; each is decoded or refused; non-trivial: distinct strings")
	h.Budget(2e9, 30e9)
	for h.More(3000) {
		n := h.Intn(16)
		b := h.Bytes(n)
		m := h.Intn(3)
		for i := range b {
			if m == 0 || (m == 1 && h.Intn(8) > 0) {
				b[i] |= 0x80
			}
		}
		if len(b) > 9 && h.Intn(2) == 0 {
			b[9] = byte(h.Intn(4))
		}
		at := h.Intn(n + 1)
		if h.Intn(2) == 0 {
			at = 0
		}
		h.Case(fmt.Sprintf("%x at %d", b, at), func() string {
			want, used, ok := refDecode(b, at)
			// spare capacity must not be read either
			buf := append(append([]byte(nil), b...), 1, 1, 1, 1, 1, 1, 1, 1, 1, 1)[:n]
			pos := at
			var got uint64
			msg := vh.Panics(func() { got = pb.DecodeVarInt(buf, &pos) })
			if !ok {
				if msg == "" {
					return fmt.Sprintf("decoded %d, must be refused", got)
				}
				return ""
			}
			if msg != "" || got != want || pos != at+used {
				return fmt.Sprintf("%s decoded %d ending at %d, want %d ending at %d", msg, got, pos, want, at+used)
			}
			return ""
		})
	}
}

func TestVerif_C01_zigzag(t *testing.T) {
	h := vh.Start(t, "C01", "signed and unsigned values of every magnitude through zigzag both ways; non-trivial: distinct values")
	h.Budget(1e9, 20e9)
	for h.More(3000) {
		x := h.I64()
		h.Case(fmt.Sprint(x), func() string {
			var want uint64
			if x >= 0 {
				want = 2 * uint64(x)
			} else {
				want = 2*uint64(-(x+1)) + 1
			}
			if g := pb.EncodeZigZag(x); g != want {
				return fmt.Sprintf("zigzag %d, want %d", g, want)
			}
			if g := pb.DecodeZigZag(want); g != x {
				return fmt.Sprintf("back %d", g)
			}
			return ""
		})
	}
}
