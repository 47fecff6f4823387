# Way index entries, passes and lookup.

fn widOf(d u64) int = d / 8589934592
fn woffOf(d u64) int = d % 8589934592

contract wayindex.WayIndexData.WayID(id)
  props C11 C08
  returns widOf(id)

contract wayindex.WayIndexData.Offset(id)
  props C11 C08
  returns woffOf(id)

contract wayindex.MakeIndexData(wayID, offset)
  props C11 C13
  safe 0 <= wayID && wayID < 2147483648 && 0 <= offset && offset < 8589934592
  ensures refusal: 0 <= wayID && wayID < 2147483648 && 0 <= offset && offset < 8589934592
  returns wayID*8589934592 + offset

lemma wayEntryRound(w int, o int)
  props C11
  requires 0 <= w && w < 2147483648 && 0 <= o && o < 8589934592
  ensures widOf(w*8589934592 + o) == w
  ensures woffOf(w*8589934592 + o) == o

# ---- lookup

# x << s for a 64-bit x
fn shl(x int, s int) i64 decreases 0 = i64(x * pow2(s))
opaque shl
fn wpos(d u64, s int) int = shl(woffOf(d), s)
fn wayAt(loc bytes, d u64, s int) seq(i64) = decZ(loc[wpos(d, s):], 0, 0)
# ascending way ids, each with a complete location list behind its offset
fn wfWays(ids seq(u64), loc bytes, s int) bool = forall(i, 0, len(ids), 0 <= wpos(ids[i], s) && wpos(ids[i], s) <= len(loc) && zok(loc[wpos(ids[i], s):], 0)) && forall(i, 0, len(ids), forall(j, i+1, len(ids), widOf(ids[i]) < widOf(ids[j])))

fn wayHit(ids seq(u64), loc bytes, s int, id int, r seq(i64), ok bool) bool = forall(k, 0, len(ids), imp(widOf(ids[k]) == id, ok && r == wayAt(loc, ids[k], s)))
fn noWayFrom(ids seq(u64), a int, b int, id int) bool = forall(k, a, b, widOf(ids[k]) != id)
fn noWay(ids seq(u64), id int) bool = noWayFrom(ids, 0, len(ids), id)

contract wayindex.SubWayIndex.findLocationsActual(si, id, hint)
  props C08
  requires hint >= 0
  requires !isnil(si.parent) && 0 <= si.parent.AlignmentShift && si.parent.AlignmentShift <= 62
  requires wfWays(els(si.Ids), els(si.Loc), si.parent.AlignmentShift)
  havocs si.parent.HitHint
  havocs si.parent.HitDefault
  havocs si.parent.MissDeferred
  havocs si.parent.MissDefault
  ensures above: imp(id > si.Top, len(result0) == 0 && !result2)
  ensures inside: imp(id <= si.Top, wayHit(els(si.Ids), els(si.Loc), si.parent.AlignmentShift, id, els(result0), result2))
  ensures outside: imp(noWay(els(si.Ids), id), len(result0) == 0 && !result2)
  ensures hint: result1 == hint || 0 <= result1 && result1 < len(si.Ids)
  loop 0
    inv 0 <= lowerPoint && lowerPoint <= upperPoint && upperPoint <= len(si.Ids)
    inv forall(k, 0, lowerPoint, widOf(si.Ids[k]) < id)
    inv forall(k, upperPoint, len(si.Ids), id < widOf(si.Ids[k]))

# ---- what a way index holds for an id

fn wfind(ids seq(u64), i int, id int) int decreases ite(i >= len(ids), 0, len(ids)-i) = ite(i >= len(ids) || i < 0, len(ids), ite(widOf(ids[i]) == id, i, wfind(ids, i+1, id)))
fn wKnown(ids seq(u64), id int) bool = wfind(ids, 0, id) < len(ids)
fn wLocs(ids seq(u64), loc bytes, s int, id int) seq(i64) = wayAt(loc, ids[wfind(ids, 0, id)], s)

lemma wfindHit(ids seq(u64), i int, id int)
  props C08
  requires 0 <= i && i <= len(ids)
  ensures i <= wfind(ids, i, id) && wfind(ids, i, id) <= len(ids)
  ensures imp(wfind(ids, i, id) < len(ids), widOf(ids[wfind(ids, i, id)]) == id)
  ensures noWayFrom(ids, i, wfind(ids, i, id), id)
  split i < len(ids)
  split widOf(ids[i]) == id
  unfold wfind(ids, i, id)
  use imp(i < len(ids) && widOf(ids[i]) != id, wfindHit(ids, i+1, id))
  decreases len(ids) - i

# a lookup is determined by the index
fn hitOf(ids seq(u64), loc bytes, s int, id int, r seq(i64), ok bool) bool = imp(wKnown(ids, id), ok && r == wLocs(ids, loc, s, id)) && imp(!wKnown(ids, id), !ok)
lemma hitIs(ids seq(u64), loc bytes, s int, id int, r seq(i64), ok bool)
  props C08
  requires wayHit(ids, loc, s, id, r, ok) && imp(noWay(ids, id), !ok)
  ensures hitOf(ids, loc, s, id, r, ok)
  use wfindHit(ids, 0, id)
  split wKnown(ids, id)

contract wayindex.SubWayIndex.FindLocations(si, id, hint)
  props C08
  requires hint >= 0
  requires !isnil(si.parent) && 0 <= si.parent.AlignmentShift && si.parent.AlignmentShift <= 62
  requires wfWays(els(si.Ids), els(si.Loc), si.parent.AlignmentShift)
  safe isnil(si.parent.lookupTimingCount)
  havocs si.parent.HitHint
  havocs si.parent.HitDefault
  havocs si.parent.MissDeferred
  havocs si.parent.MissDefault
  havocs si.parent.lookupTimingCount
  ensures above: imp(id > si.Top, len(result0) == 0 && !result2)
  ensures inside: imp(id <= si.Top, wayHit(els(si.Ids), els(si.Loc), si.parent.AlignmentShift, id, els(result0), result2))
  ensures outside: imp(noWay(els(si.Ids), id), len(result0) == 0 && !result2)
  use imp(id <= si.Top, hitIs(els(si.Ids), els(si.Loc), si.parent.AlignmentShift, id, els(result0), result2))
  ensures exact: imp(id <= si.Top, hitOf(els(si.Ids), els(si.Loc), si.parent.AlignmentShift, id, els(result0), result2))
  ensures hint: result1 == hint || 0 <= result1 && result1 < len(si.Ids)

# ---- passes

# the first way from i on whose data starts at or after the target
fn wcut(ids seq(u64), i int, s int, T int) int decreases ite(i >= len(ids), 0, len(ids)-i) = ite(i >= len(ids) || i < 0, len(ids), ite(wpos(ids[i], s) >= T, i, wcut(ids, i+1, s, T)))
fn wTarget(n int, p int, count int) int = i64((n/count)*p)
fn wFrom(ids seq(u64), n int, s int, p int, count int) int = wcut(ids, 0, s, wTarget(n, p, count))
fn wTo(ids seq(u64), n int, s int, p int, count int) int = ite(p+1 < count, wcut(ids, wFrom(ids, n, s, p, count), s, wTarget(n, p+1, count)), len(ids))

fn isPart(ids seq(u64), a int, r seq(u64)) bool = forall(i, 0, len(r), r[i] == ids[a+i])
lemma wfSub(ids seq(u64), loc bytes, s int, a int, b int, r seq(u64))
  props C10
  requires wfWays(ids, loc, s) && 0 <= a && a <= b && b <= len(ids) && len(r) == b-a && isPart(ids, a, r)
  ensures wfWays(r, loc, s)

# the ways of a pass, and the highest id it covers
fn passIds(ids seq(u64), n int, s int, p int, count int) seq(u64) decreases 0 = ids[wFrom(ids, n, s, p, count):wTo(ids, n, s, p, count)]
fn passTop(ids seq(u64), n int, s int, p int, count int) int decreases 0 = ite(wTo(ids, n, s, p, count) > 0, widOf(ids[wTo(ids, n, s, p, count)-1]), 0)
opaque passIds
opaque passTop
lemma passDef(ids seq(u64), n int, s int, p int, count int)
  props C10
  ensures passIds(ids, n, s, p, count) == ids[wFrom(ids, n, s, p, count):wTo(ids, n, s, p, count)]
  ensures passTop(ids, n, s, p, count) == ite(wTo(ids, n, s, p, count) > 0, widOf(ids[wTo(ids, n, s, p, count)-1]), 0)
  unfold passIds(ids, n, s, p, count)
  unfold passTop(ids, n, s, p, count)

contract wayindex.WayIndex.SubIndexWithScaledPass(idx, curPass, countPass)
  props C10
  requires 0 <= curPass && curPass < countPass
  requires 0 <= idx.AlignmentShift && idx.AlignmentShift <= 62
  use passDef(els(idx.Ids), len(idx.Loc), idx.AlignmentShift, curPass, countPass)
  ensures els(result0.Ids) == passIds(els(idx.Ids), len(idx.Loc), idx.AlignmentShift, curPass, countPass)
  ensures els(result0.Loc) == els(idx.Loc)
  ensures !isnil(result0.parent) && result0.parent.AlignmentShift == idx.AlignmentShift
  ensures result0.Top == passTop(els(idx.Ids), len(idx.Loc), idx.AlignmentShift, curPass, countPass)
  loop 0
    inv 0 <= i && i <= len(subIds)
    inv wcut(els(subIds), 0, idx.AlignmentShift, startTarget) == wcut(els(subIds), i, idx.AlignmentShift, startTarget)
    inv startIndex == len(subIds)
  loop 1
    inv startIndex <= i && i <= len(subIds)
    inv wcut(els(subIds), startIndex, idx.AlignmentShift, endTarget) == wcut(els(subIds), i, idx.AlignmentShift, endTarget)
    inv endIndex == len(subIds)
    inv wcut(els(subIds), 0, idx.AlignmentShift, startTarget) == startIndex

lemma wcutRange(ids seq(u64), i int, s int, T int)
  props C10
  requires 0 <= i && i <= len(ids)
  ensures i <= wcut(ids, i, s, T) && wcut(ids, i, s, T) <= len(ids)
  split i < len(ids)
  unfold wcut(ids, i, s, T)
  use imp(i < len(ids), wcutRange(ids, i+1, s, T))
  decreases len(ids) - i

lemma wRange(ids seq(u64), n int, s int, p int, count int)
  props C10
  requires 0 <= p && p < count
  ensures 0 <= wFrom(ids, n, s, p, count) && wFrom(ids, n, s, p, count) <= wTo(ids, n, s, p, count) && wTo(ids, n, s, p, count) <= len(ids)
  use wcutRange(ids, 0, s, wTarget(n, p, count))
  use wcutRange(ids, wFrom(ids, n, s, p, count), s, wTarget(n, p+1, count))

lemma passWf(ids seq(u64), loc bytes, s int, p int, count int)
  props C10
  requires 0 <= p && p < count && wfWays(ids, loc, s)
  ensures wfWays(passIds(ids, len(loc), s, p, count), loc, s)
  split p+1 < count
  use wRange(ids, len(loc), s, p, count)
  unfold passIds(ids, len(loc), s, p, count)
  use wfSub(ids, loc, s, wFrom(ids, len(loc), s, p, count), wTo(ids, len(loc), s, p, count), ids[wFrom(ids, len(loc), s, p, count):wTo(ids, len(loc), s, p, count)])

lemma wcutChain(ids seq(u64), i int, s int, T int, U int)
  props C10
  requires 0 <= i && i <= len(ids) && T <= U
  ensures wcut(ids, i, s, U) == wcut(ids, wcut(ids, i, s, T), s, U)
  split i < len(ids)
  unfold wcut(ids, i, s, T)
  unfold wcut(ids, i, s, U)
  use imp(i < len(ids), wcutChain(ids, i+1, s, T, U))
  decreases len(ids) - i

lemma wTargets(n int, p int, count int)
  props C10
  requires 0 <= n && n < 281474976710656 && 0 <= p && p + 1 < count
  ensures wTarget(n, p, count) == (n/count)*p && 0 <= wTarget(n, p, count)
  ensures wTarget(n, p, count) <= wTarget(n, p+1, count)

fn waysUpto(ids seq(u64), n int, s int, p int, count int) seq(u64) decreases p = ite(p <= 0, ids[0:0], cat(waysUpto(ids, n, s, p-1, count), ids[wFrom(ids, n, s, p-1, count):wTo(ids, n, s, p-1, count)]))

# offsets are never negative, so the first pass starts at the first way
fn posOK(ids seq(u64), s int) bool = forall(i, 0, len(ids), wpos(ids[i], s) >= 0)

lemma waysJoin(ids seq(u64), n int, s int, p int, count int)
  props C10
  requires 0 <= n && n < 281474976710656 && 0 <= p && p+1 < count
  ensures wTo(ids, n, s, p, count) == wFrom(ids, n, s, p+1, count)
  ensures 0 <= wFrom(ids, n, s, p, count) && wFrom(ids, n, s, p, count) <= wFrom(ids, n, s, p+1, count) && wFrom(ids, n, s, p+1, count) <= len(ids)
  use wTargets(n, p, count)
  use wcutChain(ids, 0, s, wTarget(n, p, count), wTarget(n, p+1, count))
  use wcutRange(ids, 0, s, wTarget(n, p, count))
  use wcutRange(ids, 0, s, wTarget(n, p+1, count))
  use wcutRange(ids, wFrom(ids, n, s, p, count), s, wTarget(n, p+1, count))

lemma waysPrefix(ids seq(u64), n int, s int, p int, count int)
  props C10
  requires 0 <= n && n < 281474976710656 && 0 <= p && p < count && posOK(ids, s)
  ensures waysUpto(ids, n, s, p, count) == ids[0:wFrom(ids, n, s, p, count)]
  split p > 0
  split len(ids) > 0
  unfold waysUpto(ids, n, s, p, count)
  unfold wcut(ids, 0, s, 0)
  use imp(p > 0, waysPrefix(ids, n, s, p-1, count))
  use imp(p > 0, waysJoin(ids, n, s, p-1, count))
  decreases p

lemma waysAll(ids seq(u64), n int, s int, count int)
  props C10
  requires 0 <= n && n < 281474976710656 && 1 <= count && posOK(ids, s)
  ensures waysUpto(ids, n, s, count, count) == ids
  unfold waysUpto(ids, n, s, count, count)
  use waysPrefix(ids, n, s, count-1, count)
  use wcutRange(ids, 0, s, wTarget(n, count-1, count))
