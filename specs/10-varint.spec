# Protocol-buffer varints: canonical encoding, decoding of any input.

fn varint(v int) bytes decreases v = ite(v < 128, bytes(v), cat(bytes(v%128+128), varint(v/128)))
literal varint

# vok: a varint of at most ten bytes and at most 64 bits starts at i
fn vok(b bytes, i int, k int) bool decreases 10-k = ite(i < 0 || i >= len(b) || k > 9, false, ite(k == 9, b[i] < 2, ite(b[i] < 128, true, vok(b, i+1, k+1))))
fn vvalk(b bytes, i int, k int) int decreases 10-k = ite(k > 9, 0, ite(b[i] < 128, b[i], b[i]-128 + 128*vvalk(b, i+1, k+1)))
fn vendk(b bytes, i int, k int) int decreases 10-k = ite(k > 9, i, ite(b[i] < 128, i+1, vendk(b, i+1, k+1)))

fn isv(b bytes, i int) bool = vok(b, i, 0)
fn vval(b bytes, i int) int = vvalk(b, i, 0)
fn vend(b bytes, i int) int = vendk(b, i, 0)

fn zz(x int) int = ite(x >= 0, 2*x, 0-2*x-1)
fn unzz(v int) int = ite(v%2 == 0, v/2, 0-(v/2)-1)
fn vok32(v int) u32 = v

const MAXI = 281474976710656

contract pb.EncodeVarInt(b, v)
  props C01 C02 C03 C04
  appends b = varint(v)

contract pb.DecodeVarInt(b, s)
  props C01 C02 C03 C04
  requires 0 <= s && s <= MAXI
  safe isv(b, s)
  returns vval(b, s)
  ensures refusal: isv(b, s)
  sets s = vend(b, s)

contract pb.DecodeZigZag(x)
  props C01 C02
  returns unzz(x)

contract pb.EncodeZigZag(x)
  props C01 C02
  returns zz(x)

contract pb.MakeIdType(id, typ)
  props C03 C04
  returns u64(8*id) + typ
  requires typ < 8

contract pb.EncodeIdVarInt(buf, id, v)
  props C01 C04
  requires id < 2305843009213693952
  appends buf = cat(varint(8*id), varint(v))

# a varint written anywhere is read back
lemma vRound(A bytes, v int, B bytes, k int)
  requires 0 <= v && v < 18446744073709551616 && 0 <= k && k <= 9
  requires imp(k == 9, v < 2) && imp(k == 8, v < 256) && imp(k == 7, v < 32768) && imp(k == 6, v < 4194304)
  requires imp(k == 5, v < 536870912) && imp(k == 4, v < 68719476736) && imp(k == 3, v < 8796093022208) && imp(k == 2, v < 1125899906842624) && imp(k == 1, v < 144115188075855872)
  ensures vok(cat(A, varint(v), B), len(A), k)
  ensures vvalk(cat(A, varint(v), B), len(A), k) == v
  ensures vendk(cat(A, varint(v), B), len(A), k) == len(A) + len(varint(v))
  split v < 128
  unfold varint(v)
  use imp(v >= 128, vRound(cat(A, bytes(v%128+128)), v/128, B, k+1))
  decreases v
