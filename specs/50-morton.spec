# Location codes: bit interleaving, decided over bit vectors.

ufn mortE(e i32, o i32) u64
ufn evens(x u64) u32
ufn odds(x u64) u32
ufn codeLon(x u64) i32
ufn codeLat(x u64) i32

contract morton.Encode(evens, odds)
  props C06 C12
  bv
  as mortE
  returns interleave(evens, odds)

contract morton.Decode(x)
  props C06
  bv
  as evens odds
  ensures result0 == evenbits(x)
  ensures result1 == oddbits(x)

contract morton.DecodeLocation(x)
  props C06
  bv
  as codeLon codeLat
  ensures result0 == evenbits(x)
  ensures result1 == sext(extract(oddbits(x), 30, 0), 32)

lemma mortonBijective(e u32, o u32, x u64)
  props C06
  bv
  ensures evenbits(interleave(e, o)) == e
  ensures oddbits(interleave(e, o)) == o
  ensures interleave(evenbits(x), oddbits(x)) == x

# the code of a location: the latitude carries its sign in bit 30, bit 31 marks a code
lemma locationCode(lon u32, lat u32)
  props C06
  bv
  requires sext(extract(lat, 30, 0), 32) == lat
  ensures extract(interleave(lon, lat | bv(2147483648, 32)), 63, 63) == bv(1, 1)
  ensures evenbits(interleave(lon, lat | bv(2147483648, 32))) == lon
  ensures sext(extract(oddbits(interleave(lon, lat | bv(2147483648, 32))), 30, 0), 32) == lat
