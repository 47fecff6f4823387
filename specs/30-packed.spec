# Packed lists of numbers.

# every byte of b from i on belongs to a complete varint
fn allv(b bytes, i int) bool decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b), true, isv(b, i) && allv(b, vend(b, i)))

contract pb.DecodeS32(buf, next)
  props C02 C04
  requires 0 <= next && next <= MAXI
  safe isv(buf, next)
  ensures refusal: isv(buf, next)
  returns i32(unzz(vval(buf, next)))
  sets next = vend(buf, next)

contract pb.DecodeS32Opt(buf, next)
  props C02 C04
  requires 0 <= next && next <= MAXI
  safe isv(buf, next)
  ensures refusal: isv(buf, next)
  returns some(i32(unzz(vval(buf, next))))
  sets next = vend(buf, next)

contract pb.DecodeI32(buf, next)
  props C02 C04
  requires 0 <= next && next <= MAXI
  safe isv(buf, next)
  ensures refusal: isv(buf, next)
  returns i32(vval(buf, next))
  sets next = vend(buf, next)

contract pb.DecodeI32Opt(buf, next)
  props C02 C04
  requires 0 <= next && next <= MAXI
  safe isv(buf, next)
  ensures refusal: isv(buf, next)
  returns some(i32(vval(buf, next)))
  sets next = vend(buf, next)

contract pb.DecodeU32(buf, next)
  props C02 C04
  requires 0 <= next && next <= MAXI
  safe isv(buf, next)
  ensures refusal: isv(buf, next)
  returns u32(vval(buf, next))
  sets next = vend(buf, next)

contract pb.DecodeU32Opt(buf, next)
  props C02 C04
  requires 0 <= next && next <= MAXI
  safe isv(buf, next)
  ensures refusal: isv(buf, next)
  returns some(u32(vval(buf, next)))
  sets next = vend(buf, next)

contract pb.DecodeS64(buf, next)
  props C02 C04
  requires 0 <= next && next <= MAXI
  safe isv(buf, next)
  ensures refusal: isv(buf, next)
  returns unzz(vval(buf, next))
  sets next = vend(buf, next)

contract pb.DecodeS64Opt(buf, next)
  props C02 C04
  requires 0 <= next && next <= MAXI
  safe isv(buf, next)
  ensures refusal: isv(buf, next)
  returns some(unzz(vval(buf, next)))
  sets next = vend(buf, next)

contract pb.DecodeI64(buf, next)
  props C02 C04
  requires 0 <= next && next <= MAXI
  safe isv(buf, next)
  ensures refusal: isv(buf, next)
  returns i64(vval(buf, next))
  sets next = vend(buf, next)

contract pb.DecodeI64Opt(buf, next)
  props C02 C04
  requires 0 <= next && next <= MAXI
  safe isv(buf, next)
  ensures refusal: isv(buf, next)
  returns some(i64(vval(buf, next)))
  sets next = vend(buf, next)

contract pb.DecodeU64(buf, next)
  props C02 C04
  requires 0 <= next && next <= MAXI
  safe isv(buf, next)
  ensures refusal: isv(buf, next)
  returns vval(buf, next)
  sets next = vend(buf, next)

contract pb.DecodeU64Opt(buf, next)
  props C02 C04
  requires 0 <= next && next <= MAXI
  safe isv(buf, next)
  ensures refusal: isv(buf, next)
  returns some(vval(buf, next))
  sets next = vend(buf, next)

fn encS32(xs seq(i32), i int) bytes decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, empty(bytes), cat(varint(zz(xs[i])), encS32(xs, i+1)))
fn decS32(b bytes, i int) seq(i32) decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b) || i < 0, emptyof("seq(i32)"), let(d, i32(unzz(vval(b, i))), cons(d, decS32(b, vend(b, i)))))

lemma roundS32(A bytes, xs seq(i32), i int)
  props C02
  requires 0 <= i && i <= len(xs)
  ensures allv(cat(A, encS32(xs, i)), len(A))
  ensures decS32(cat(A, encS32(xs, i)), len(A)) == xs[i:]
  split i < len(xs)
  unfold encS32(xs, i)
  use imp(i < len(xs), vRound(A, zz(xs[i]), encS32(xs, i+1), 0))
  use imp(i < len(xs), roundS32(cat(A, varint(zz(xs[i]))), xs, i+1))
  decreases len(xs)-i

contract pb.DecodeS32Packed(buf, next)
  props C02 C04
  requires 0 <= next && next <= MAXI
  safe lenok(buf, next) && allv(lfield(buf, next), 0)
  ensures refusal: lenok(buf, next) && allv(lfield(buf, next), 0)
  returns decS32(lfield(buf, next), 0)
  sets next = lend(buf, next)
  loop 0
    inv cat(output[:idx], decS32(innerBuf, innerNext)) == decS32(innerBuf, 0)
    inv allv(innerBuf, innerNext) == allv(innerBuf, 0)
    inv 0 <= innerNext && innerNext <= len(innerBuf)
    inv 0 <= idx && idx <= innerNext && len(output) == len(innerBuf)

contract pb.EncodeS32Packed(buf, values)
  props C02 C04
  appends buf = lenc(encS32(values, 0))
  loop 0
    inv cat(innerBuf, encS32(values, iter)) == encS32(values, 0)

fn encS32Delta(xs seq(i32), i int, last i32) bytes decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, empty(bytes), cat(varint(zz(i32(xs[i]-last))), encS32Delta(xs, i+1, xs[i])))
fn decS32Delta(b bytes, i int, last i32) seq(i32) decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b) || i < 0, emptyof("seq(i32)"), let(d, i32(last+i32(unzz(vval(b, i)))), cons(d, decS32Delta(b, vend(b, i), d))))

lemma roundS32Delta(A bytes, xs seq(i32), i int, last i32)
  props C02
  requires 0 <= i && i <= len(xs)
  ensures allv(cat(A, encS32Delta(xs, i, last)), len(A))
  ensures decS32Delta(cat(A, encS32Delta(xs, i, last)), len(A), last) == xs[i:]
  split i < len(xs)
  unfold encS32Delta(xs, i, last)
  use imp(i < len(xs), vRound(A, zz(i32(xs[i]-last)), encS32Delta(xs, i+1, xs[i]), 0))
  use imp(i < len(xs), roundS32Delta(cat(A, varint(zz(i32(xs[i]-last)))), xs, i+1, xs[i]))
  decreases len(xs)-i

contract pb.EncodeS32PackedDelta(buf, values)
  props C02 C04
  appends buf = lenc(encS32Delta(values, 0, 0))
  loop 0
    inv cat(innerBuf, encS32Delta(values, iter, last)) == encS32Delta(values, 0, 0)

fn encI32(xs seq(i32), i int) bytes decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, empty(bytes), cat(varint(u64(xs[i])), encI32(xs, i+1)))
fn decI32(b bytes, i int) seq(i32) decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b) || i < 0, emptyof("seq(i32)"), let(d, i32(vval(b, i)), cons(d, decI32(b, vend(b, i)))))

lemma roundI32(A bytes, xs seq(i32), i int)
  props C02
  requires 0 <= i && i <= len(xs)
  ensures allv(cat(A, encI32(xs, i)), len(A))
  ensures decI32(cat(A, encI32(xs, i)), len(A)) == xs[i:]
  split i < len(xs)
  unfold encI32(xs, i)
  use imp(i < len(xs), vRound(A, u64(xs[i]), encI32(xs, i+1), 0))
  use imp(i < len(xs), roundI32(cat(A, varint(u64(xs[i]))), xs, i+1))
  decreases len(xs)-i

contract pb.DecodeI32Packed(buf, next)
  props C02 C04
  requires 0 <= next && next <= MAXI
  safe lenok(buf, next) && allv(lfield(buf, next), 0)
  ensures refusal: lenok(buf, next) && allv(lfield(buf, next), 0)
  returns decI32(lfield(buf, next), 0)
  sets next = lend(buf, next)
  loop 0
    inv cat(output[:idx], decI32(innerBuf, innerNext)) == decI32(innerBuf, 0)
    inv allv(innerBuf, innerNext) == allv(innerBuf, 0)
    inv 0 <= innerNext && innerNext <= len(innerBuf)
    inv 0 <= idx && idx <= innerNext && len(output) == len(innerBuf)

contract pb.EncodeI32Packed(buf, values)
  props C02 C04
  appends buf = lenc(encI32(values, 0))
  loop 0
    inv cat(innerBuf, encI32(values, iter)) == encI32(values, 0)

contract pb.EncodeI32PackedFunc$1(buf)
  props C02 C04
  appends buf = encI32(values, 0)
  loop 0
    inv cat(buf, encI32(values, iter)) == cat(old(buf), encI32(values, 0))

fn encU32(xs seq(u32), i int) bytes decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, empty(bytes), cat(varint(xs[i]), encU32(xs, i+1)))
fn decU32(b bytes, i int) seq(u32) decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b) || i < 0, emptyof("seq(u32)"), let(d, u32(vval(b, i)), cons(d, decU32(b, vend(b, i)))))

lemma roundU32(A bytes, xs seq(u32), i int)
  props C02
  requires 0 <= i && i <= len(xs)
  ensures allv(cat(A, encU32(xs, i)), len(A))
  ensures decU32(cat(A, encU32(xs, i)), len(A)) == xs[i:]
  split i < len(xs)
  unfold encU32(xs, i)
  use imp(i < len(xs), vRound(A, xs[i], encU32(xs, i+1), 0))
  use imp(i < len(xs), roundU32(cat(A, varint(xs[i])), xs, i+1))
  decreases len(xs)-i

contract pb.DecodeU32Packed(buf, next)
  props C02 C04
  requires 0 <= next && next <= MAXI
  safe lenok(buf, next) && allv(lfield(buf, next), 0)
  ensures refusal: lenok(buf, next) && allv(lfield(buf, next), 0)
  returns decU32(lfield(buf, next), 0)
  sets next = lend(buf, next)
  loop 0
    inv cat(output[:idx], decU32(innerBuf, innerNext)) == decU32(innerBuf, 0)
    inv allv(innerBuf, innerNext) == allv(innerBuf, 0)
    inv 0 <= innerNext && innerNext <= len(innerBuf)
    inv 0 <= idx && idx <= innerNext && len(output) == len(innerBuf)

contract pb.EncodeU32PackedFunc$1(buf)
  props C02 C04
  appends buf = encU32(values, 0)
  loop 0
    inv cat(buf, encU32(values, iter)) == cat(old(buf), encU32(values, 0))

fn encS64(xs seq(i64), i int) bytes decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, empty(bytes), cat(varint(zz(xs[i])), encS64(xs, i+1)))
fn decS64(b bytes, i int) seq(i64) decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b) || i < 0, emptyof("seq(i64)"), let(d, unzz(vval(b, i)), cons(d, decS64(b, vend(b, i)))))

lemma roundS64(A bytes, xs seq(i64), i int)
  props C02
  requires 0 <= i && i <= len(xs)
  ensures allv(cat(A, encS64(xs, i)), len(A))
  ensures decS64(cat(A, encS64(xs, i)), len(A)) == xs[i:]
  split i < len(xs)
  unfold encS64(xs, i)
  use imp(i < len(xs), vRound(A, zz(xs[i]), encS64(xs, i+1), 0))
  use imp(i < len(xs), roundS64(cat(A, varint(zz(xs[i]))), xs, i+1))
  decreases len(xs)-i

contract pb.DecodeS64Packed(buf, next)
  props C02 C04
  requires 0 <= next && next <= MAXI
  safe lenok(buf, next) && allv(lfield(buf, next), 0)
  ensures refusal: lenok(buf, next) && allv(lfield(buf, next), 0)
  returns decS64(lfield(buf, next), 0)
  sets next = lend(buf, next)
  loop 0
    inv cat(output[:idx], decS64(innerBuf, innerNext)) == decS64(innerBuf, 0)
    inv allv(innerBuf, innerNext) == allv(innerBuf, 0)
    inv 0 <= innerNext && innerNext <= len(innerBuf)
    inv 0 <= idx && idx <= innerNext && len(output) == len(innerBuf)

fn encU64(xs seq(u64), i int) bytes decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, empty(bytes), cat(varint(xs[i]), encU64(xs, i+1)))
fn decU64(b bytes, i int) seq(u64) decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b) || i < 0, emptyof("seq(u64)"), let(d, vval(b, i), cons(d, decU64(b, vend(b, i)))))

lemma roundU64(A bytes, xs seq(u64), i int)
  props C02
  requires 0 <= i && i <= len(xs)
  ensures allv(cat(A, encU64(xs, i)), len(A))
  ensures decU64(cat(A, encU64(xs, i)), len(A)) == xs[i:]
  split i < len(xs)
  unfold encU64(xs, i)
  use imp(i < len(xs), vRound(A, xs[i], encU64(xs, i+1), 0))
  use imp(i < len(xs), roundU64(cat(A, varint(xs[i])), xs, i+1))
  decreases len(xs)-i

contract pb.DecodeU64Packed(buf, next)
  props C02 C04
  requires 0 <= next && next <= MAXI
  safe lenok(buf, next) && allv(lfield(buf, next), 0)
  ensures refusal: lenok(buf, next) && allv(lfield(buf, next), 0)
  returns decU64(lfield(buf, next), 0)
  sets next = lend(buf, next)
  loop 0
    inv cat(output, decU64(innerBuf, innerNext)) == decU64(innerBuf, 0)
    inv allv(innerBuf, innerNext) == allv(innerBuf, 0)
    inv 0 <= innerNext && innerNext <= len(innerBuf)

contract pb.EncodeU64Packed$1(buf)
  props C02 C04
  appends buf = encU64(values, 0)
  loop 0
    inv cat(buf, encU64(values, iter)) == cat(old(buf), encU64(values, 0))

fn encS64Delta(xs seq(i64), i int, last i64) bytes decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, empty(bytes), cat(varint(zz(i64(xs[i]-last))), encS64Delta(xs, i+1, xs[i])))
fn decS64Delta(b bytes, i int, last i64) seq(i64) decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b) || i < 0, emptyof("seq(i64)"), let(d, i64(last+unzz(vval(b, i))), cons(d, decS64Delta(b, vend(b, i), d))))

lemma roundS64Delta(A bytes, xs seq(i64), i int, last i64)
  props C02
  requires 0 <= i && i <= len(xs)
  ensures allv(cat(A, encS64Delta(xs, i, last)), len(A))
  ensures decS64Delta(cat(A, encS64Delta(xs, i, last)), len(A), last) == xs[i:]
  split i < len(xs)
  unfold encS64Delta(xs, i, last)
  use imp(i < len(xs), vRound(A, zz(i64(xs[i]-last)), encS64Delta(xs, i+1, xs[i]), 0))
  use imp(i < len(xs), roundS64Delta(cat(A, varint(zz(i64(xs[i]-last)))), xs, i+1, xs[i]))
  decreases len(xs)-i

contract pb.DecodeS64PackedDelta(buf, next)
  props C02 C04
  requires 0 <= next && next <= MAXI
  safe lenok(buf, next) && allv(lfield(buf, next), 0)
  ensures refusal: lenok(buf, next) && allv(lfield(buf, next), 0)
  returns decS64Delta(lfield(buf, next), 0, 0)
  sets next = lend(buf, next)
  loop 0
    inv cat(output[:idx], decS64Delta(innerBuf, innerNext, last)) == decS64Delta(innerBuf, 0, 0)
    inv allv(innerBuf, innerNext) == allv(innerBuf, 0)
    inv 0 <= innerNext && innerNext <= len(innerBuf)
    inv 0 <= idx && idx <= innerNext && len(output) == len(innerBuf)

contract pb.EncodeS64PackedDelta(buf, values)
  props C02 C04
  appends buf = lenc(encS64Delta(values, 0, 0))
  loop 0
    inv cat(innerBuf, encS64Delta(values, iter, last)) == encS64Delta(values, 0, 0)

contract pb.EncodeS64PackedDeltaFunc$1(buf)
  props C02 C04
  appends buf = encS64Delta(values, 0, 0)
  loop 0
    inv cat(buf, encS64Delta(values, iter, last)) == cat(old(buf), encS64Delta(values, 0, 0))

# the zero-terminated delta list of way indexes
fn zok(b bytes, i int) bool decreases ite(i >= len(b), 0, len(b)-i) = ite(i < 0 || i >= len(b), false, ite(isv(b, i), ite(vval(b, i) == 0, true, zok(b, vend(b, i))), false))
fn decZ(b bytes, i int, last i64) seq(i64) decreases ite(i >= len(b), 0, len(b)-i) = ite(i < 0 || i >= len(b), emptyof("seq(i64)"), ite(vval(b, i) == 0, emptyof("seq(i64)"), let(d, i64(last+unzz(vval(b, i))), cons(d, decZ(b, vend(b, i), d)))))
fn noRepeat(xs seq(i64), i int, last i64) bool decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, true, xs[i] != last && noRepeat(xs, i+1, xs[i]))

lemma roundZ(A bytes, xs seq(i64), i int, last i64, B bytes)
  props C02 C08 C13
  requires 0 <= i && i <= len(xs)
  requires noRepeat(xs, i, last)
  ensures zok(cat(A, encS64Delta(xs, i, last), bytes(0), B), len(A))
  ensures decZ(cat(A, encS64Delta(xs, i, last), bytes(0), B), len(A), last) == xs[i:]
  split i < len(xs)
  unfold encS64Delta(xs, i, last)
  use imp(i < len(xs), vRound(A, zz(i64(xs[i]-last)), cat(encS64Delta(xs, i+1, xs[i]), bytes(0), B), 0))
  use imp(i < len(xs), roundZ(cat(A, varint(zz(i64(xs[i]-last)))), xs, i+1, xs[i], B))
  decreases len(xs)-i

contract pb.EncodeS64PackedDeltaZero(buf, values)
  props C02 C13
  appends buf = cat(encS64Delta(values, 0, 0), bytes(0))
  loop 0
    inv cat(buf, encS64Delta(values, iter, last)) == cat(old(buf), encS64Delta(values, 0, 0))

contract pb.DecodeS64PackedDeltaZero(buf)
  props C02 C08
  safe zok(buf, 0)
  ensures refusal: zok(buf, 0)
  returns decZ(buf, 0, 0)
  loop 0
    inv cat(output, decZ(buf, next, last)) == decZ(buf, 0, 0)
    inv zok(buf, next) == zok(buf, 0)
    inv 0 <= next && next <= len(buf)
