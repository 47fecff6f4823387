# Length-prefixed fields and packed number lists.

lemma vendBound(b bytes, i int, k int)
  trigger vendk(b, i, k)
  ensures imp(0 <= k && k <= 9, vendk(b, i, k) > i && vendk(b, i, k) <= i+10-k)
  ensures imp(k > 9, vendk(b, i, k) == i)
  ensures imp(vok(b, i, k), vendk(b, i, k) <= len(b))
  split k > 9
  split b[i] < 128
  unfold vendk(b, i, k)
  unfold vok(b, i, k)
  use imp(k >= 0 && k <= 9, vendBound(b, i+1, k+1))
  use imp(k < 0, vendBound(b, i+1, k+1))
  decreases ite(k > 10, 0, 10-k)

lemma vvalBound(b bytes, i int, k int)
  requires 0 <= k && k <= 9
  requires vok(b, i, k)
  ensures 0 <= vvalk(b, i, k)
  ensures imp(k == 0, vvalk(b, i, k) < 18446744073709551616) && imp(k == 9, vvalk(b, i, k) < 2) && imp(k == 8, vvalk(b, i, k) < 256) && imp(k == 7, vvalk(b, i, k) < 32768) && imp(k == 6, vvalk(b, i, k) < 4194304) && imp(k == 5, vvalk(b, i, k) < 536870912) && imp(k == 4, vvalk(b, i, k) < 68719476736) && imp(k == 3, vvalk(b, i, k) < 8796093022208) && imp(k == 2, vvalk(b, i, k) < 1125899906842624) && imp(k == 1, vvalk(b, i, k) < 144115188075855872)
  split b[i] < 128
  use imp(b[i] >= 128 && k < 9, vvalBound(b, i+1, k+1))
  decreases 10-k

lemma vvalNonneg(b bytes, i int, k int)
  trigger vvalk(b, i, k)
  ensures 0 <= vvalk(b, i, k)
  split k > 9
  use imp(k <= 9, vvalNonneg(b, i+1, k+1))
  decreases ite(k > 10, 0, 10-k)

lemma vvalRange(b bytes, i int, k int)
  trigger vvalk(b, i, k)
  ensures imp(k == 0 && vok(b, i, 0), vvalk(b, i, k) < 18446744073709551616)
  split k == 0 && vok(b, i, 0)
  use imp(k == 0 && vok(b, i, 0), vvalBound(b, i, 0))

lemma varintLen(v int)
  trigger varint(v)
  ensures len(varint(v)) >= 1
  ensures imp(v < 128, len(varint(v)) <= 1)
  ensures imp(v < 16384, len(varint(v)) <= 2)
  ensures imp(v < 2097152, len(varint(v)) <= 3)
  ensures imp(v < 268435456, len(varint(v)) <= 4)
  ensures imp(v < 34359738368, len(varint(v)) <= 5)
  ensures imp(v < 4398046511104, len(varint(v)) <= 6)
  ensures imp(v < 562949953421312, len(varint(v)) <= 7)
  ensures imp(v < 72057594037927936, len(varint(v)) <= 8)
  ensures imp(v < 9223372036854775808, len(varint(v)) <= 9)
  ensures imp(v < 18446744073709551616, len(varint(v)) <= 10)
  split v < 128
  use imp(v >= 128, varintLen(v/128))
  decreases ite(v < 0, 0, v)

# length-prefixed fields
fn lenok(b bytes, i int) bool = isv(b, i) && vval(b, i) <= len(b) - vend(b, i)
fn lend(b bytes, i int) int = vend(b, i) + vval(b, i)
fn lfield(b bytes, i int) bytes = b[vend(b, i):vend(b, i)+vval(b, i)]
fn lenc(x bytes) bytes = cat(varint(len(x)), x)

contract pb.ReadBytes(buf, next)
  props C02 C03 C04
  requires 0 <= next && next <= MAXI
  safe lenok(buf, next)
  ensures refusal: lenok(buf, next)
  aliases result0 = buf[vend(buf, next):lend(buf, next)]
  sets next = lend(buf, next)

contract pb.DecodeBytes(buf, next)
  props C02 C03 C04
  requires 0 <= next && next <= MAXI
  safe lenok(buf, next)
  ensures refusal: lenok(buf, next)
  aliases result0 = buf[vend(buf, next):lend(buf, next)]
  sets next = lend(buf, next)

contract pb.SkipBytes(buf, next)
  props C03 C04
  requires 0 <= next && next <= MAXI
  safe lenok(buf, next)
  ensures refusal: lenok(buf, next)
  sets next = lend(buf, next)

contract pb.DecodeString(buf, next)
  props C03 C04
  requires 0 <= next && next <= MAXI
  safe lenok(buf, next)
  ensures refusal: lenok(buf, next)
  returns lfield(buf, next)
  sets next = lend(buf, next)

contract pb.DecodeStringOpt(buf, next)
  props C03 C04
  requires 0 <= next && next <= MAXI
  safe lenok(buf, next)
  ensures refusal: lenok(buf, next)
  returns some(lfield(buf, next))
  sets next = lend(buf, next)

contract pb.EncodeBuffer(bufOutput, bufInput)
  props C02 C03 C04
  appends bufOutput = lenc(bufInput)

contract pb.EncodeIdBuffer(bufOutput, id, bufInput)
  props C03 C04
  requires id < 2305843009213693952
  appends bufOutput = cat(varint(8*id+2), lenc(bufInput))

contract pb.EncodeString(bufOutput, s)
  props C03
  appends bufOutput = lenc(s)

lemma lenRound(A bytes, x bytes, B bytes)
  props C03
  requires len(x) <= MAXI
  ensures vok(cat(A, lenc(x), B), len(A), 0)
  ensures vval(cat(A, lenc(x), B), len(A)) == len(x)
  ensures vend(cat(A, lenc(x), B), len(A)) == len(A) + len(varint(len(x)))
  ensures lenok(cat(A, lenc(x), B), len(A))
  ensures lfield(cat(A, lenc(x), B), len(A)) == x
  ensures lend(cat(A, lenc(x), B), len(A)) == len(A) + len(lenc(x))
  use vRound(A, len(x), cat(x, B), 0)

# a one-byte field tag
lemma tag(A bytes, k int, B bytes)
  requires 0 <= k && k < 128
  ensures vok(cat(A, bytes(k), B), len(A), 0)
  ensures vval(cat(A, bytes(k), B), len(A)) == k
  ensures vend(cat(A, bytes(k), B), len(A)) == len(A) + 1

# fixed-width (padded) lengths
fn pad1(n int) bytes = bytes(n)
fn pad2(n int) bytes = bytes(n%128+128, n/128)
fn pad3(n int) bytes = bytes(n%128+128, (n/128)%128+128, n/16384)
fn pad4(n int) bytes = bytes(n%128+128, (n/128)%128+128, (n/16384)%128+128, n/2097152)

contract pb.Reserve128(b)
  props C03
  appends b = rep(0, 1)

contract pb.EmbedInt128(b, v)
  props C03
  requires v >= 0
  requires len(b) >= 1
  safe v < 128
  ensures refusal: v < 128
  sets b = cat(pad1(v), b[1:])

contract pb.Embed128(id, e, buf)
  props C03 C04 C20
  requires id < 2305843009213693952
  payload e P
  safe len(P) < 128
  ensures refusal: len(P) < 128
  appends buf = cat(varint(8*id+2), pad1(len(P)), P)

lemma padRound1(A bytes, x bytes, B bytes)
  props C03
  requires len(x) < 128
  ensures vok(cat(A, pad1(len(x)), x, B), len(A), 0)
  ensures vval(cat(A, pad1(len(x)), x, B), len(A)) == len(x)
  ensures vend(cat(A, pad1(len(x)), x, B), len(A)) == len(A) + 1
  ensures lenok(cat(A, pad1(len(x)), x, B), len(A))
  ensures lfield(cat(A, pad1(len(x)), x, B), len(A)) == x
  ensures lend(cat(A, pad1(len(x)), x, B), len(A)) == len(A) + 1 + len(x)

contract pb.Reserve16384(b)
  props C03
  appends b = rep(0, 2)

contract pb.EmbedInt16384(b, v)
  props C03
  requires v >= 0
  requires len(b) >= 2
  safe v < 16384
  ensures refusal: v < 16384
  sets b = cat(pad2(v), b[2:])

contract pb.Embed16384(id, e, buf)
  props C03 C04 C20
  requires id < 2305843009213693952
  payload e P
  safe len(P) < 16384
  ensures refusal: len(P) < 16384
  appends buf = cat(varint(8*id+2), pad2(len(P)), P)

lemma padRound2(A bytes, x bytes, B bytes)
  props C03
  requires len(x) < 16384
  ensures vok(cat(A, pad2(len(x)), x, B), len(A), 0)
  ensures vval(cat(A, pad2(len(x)), x, B), len(A)) == len(x)
  ensures vend(cat(A, pad2(len(x)), x, B), len(A)) == len(A) + 2
  ensures lenok(cat(A, pad2(len(x)), x, B), len(A))
  ensures lfield(cat(A, pad2(len(x)), x, B), len(A)) == x
  ensures lend(cat(A, pad2(len(x)), x, B), len(A)) == len(A) + 2 + len(x)

contract pb.Reserve2097152(b)
  props C03
  appends b = rep(0, 3)

contract pb.EmbedInt2097152(b, v)
  props C03
  requires v >= 0
  requires len(b) >= 3
  safe v < 2097152
  ensures refusal: v < 2097152
  sets b = cat(pad3(v), b[3:])

contract pb.Embed2097152(id, e, buf)
  props C03 C04 C20
  requires id < 2305843009213693952
  payload e P
  safe len(P) < 2097152
  ensures refusal: len(P) < 2097152
  appends buf = cat(varint(8*id+2), pad3(len(P)), P)

lemma padRound3(A bytes, x bytes, B bytes)
  props C03
  requires len(x) < 2097152
  ensures vok(cat(A, pad3(len(x)), x, B), len(A), 0)
  ensures vval(cat(A, pad3(len(x)), x, B), len(A)) == len(x)
  ensures vend(cat(A, pad3(len(x)), x, B), len(A)) == len(A) + 3
  ensures lenok(cat(A, pad3(len(x)), x, B), len(A))
  ensures lfield(cat(A, pad3(len(x)), x, B), len(A)) == x
  ensures lend(cat(A, pad3(len(x)), x, B), len(A)) == len(A) + 3 + len(x)

contract pb.Reserve268435456(b)
  props C03
  appends b = rep(0, 4)

contract pb.EmbedInt268435456(b, v)
  props C03
  requires v >= 0
  requires len(b) >= 4
  safe v < 268435456
  ensures refusal: v < 268435456
  sets b = cat(pad4(v), b[4:])

contract pb.Embed268435456(id, e, buf)
  props C03 C04 C20
  requires id < 2305843009213693952
  payload e P
  safe len(P) < 268435456
  ensures refusal: len(P) < 268435456
  appends buf = cat(varint(8*id+2), pad4(len(P)), P)

lemma padRound4(A bytes, x bytes, B bytes)
  props C03
  requires len(x) < 268435456
  ensures vok(cat(A, pad4(len(x)), x, B), len(A), 0)
  ensures vval(cat(A, pad4(len(x)), x, B), len(A)) == len(x)
  ensures vend(cat(A, pad4(len(x)), x, B), len(A)) == len(A) + 4
  ensures lenok(cat(A, pad4(len(x)), x, B), len(A))
  ensures lfield(cat(A, pad4(len(x)), x, B), len(A)) == x
  ensures lend(cat(A, pad4(len(x)), x, B), len(A)) == len(A) + 4 + len(x)

