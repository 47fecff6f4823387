//verif: prop=C06 pkg=internal/morton
package morton_test

import (
	"fmt"
	"math"
	"testing"

	"github.com/squizzling/osmindex/internal/morton"
	"github.com/squizzling/osmindex/internal/zverif/vh"
)

func interleave(e, o uint32) (x uint64) {
	for i := uint(0); i < 32; i++ {
		x |= uint64(e>>i&1)<<(2*i) | uint64(o>>i&1)<<(2*i+1)
	}
	return
}

func edge(h *vh.H) uint32 {
	switch h.Intn(3) {
	case 0:
		return uint32(1)<<uint(h.Intn(32)) + uint32(h.Intn(3)) - 1
	case 1:
		return uint32(h.Uint64())
	default:
		return uint32(h.I64())
	}
}

func TestVerif_C06_codes(t *testing.T) {
	h := vh.Start(t, "C06", "pairs of coordinates of all magnitudes, every single bit, every pair of bits, and random 64-bit codes; non-trivial: distinct pairs")
	h.Budget(2e9, 40e9)
	one := func(e, o uint32, x uint64) {
		h.Case(fmt.Sprintf("evens=%d odds=%d code=%#x", int32(e), int32(o), x), func() string {
			c := morton.Encode(int32(e), int32(o))
			if c != interleave(e, o) {
				return fmt.Sprintf("encoded %#x, want %#x", c, interleave(e, o))
			}
			if ge, gd := morton.Decode(c); ge != e || gd != o {
				return fmt.Sprintf("%#x decodes to %d %d", c, int32(ge), int32(gd))
			}
			ge, gd := morton.Decode(x)
			if y := interleave(ge, gd); y != x {
				return fmt.Sprintf("code %#x decodes to %#x %#x, which is %#x", x, ge, gd, y)
			}
			if y := morton.Encode(int32(ge), int32(gd)); y != x {
				return fmt.Sprintf("code %#x decodes to %#x %#x, which encodes to %#x", x, ge, gd, y)
			}
			lon, lat := morton.DecodeLocation(x)
			if lon != int32(ge) || lat != int32(gd<<1)>>1 {
				return fmt.Sprintf("code %#x is location %d %d, want %d %d", x, lon, lat, int32(ge), int32(gd<<1)>>1)
			}
			return ""
		})
	}
	for i := uint(0); i < 64; i++ {
		for j := uint(0); j <= i; j++ {
			x := uint64(1)<<i | uint64(1)<<j
			one(uint32(x), uint32(x>>32), x)
			one(uint32(^x), uint32(^x>>32), ^x)
		}
	}
	for h.More(5000) {
		one(edge(h), edge(h), h.U64())
	}
}

func TestVerif_C06_locations(t *testing.T) {
	h := vh.Start(t, "C06", "longitudes within 180 and latitudes within 90 degrees in units of 1e-7 degrees, with all limits; non-trivial: distinct positions")
	h.Budget(2e9, 40e9)
	pick := func(max int) int32 {
		switch h.Intn(4) {
		case 0:
			return int32([]int{max, -max, 0, 1, -1, max - 1, 1 - max, max / 2, -max / 2}[h.Intn(9)])
		case 1:
			v := 1 << uint(h.Intn(31))
			if v > max {
				v = max
			}
			if h.Intn(2) == 0 {
				v = -v
			}
			return int32(v)
		}
		return int32(h.Intn(2*max+1) - max)
	}
	for h.More(5000) {
		lon, lat := pick(1800000000), pick(900000000)
		h.Case(fmt.Sprintf("lon=%d lat=%d", lon, lat), func() string {
			c := int64(morton.Encode(lon, lat|math.MinInt32))
			if c >= 0 {
				return fmt.Sprintf("code %d is not negative", c)
			}
			if glon, glat := morton.DecodeLocation(uint64(c)); glon != lon || glat != lat {
				return fmt.Sprintf("code %d decodes to %d %d", c, glon, glat)
			}
			return ""
		})
	}
}
