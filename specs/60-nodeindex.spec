# Node index entries, passes and lookup.

fn cntOf(co u64) u64 = co % 16777216
fn offOf(co u64) u64 = co / 16777216
fn first(e nodeindex.IndexElement) u64 = e.baseId
fn last(e nodeindex.IndexElement) u64 = u64(e.baseId + cntOf(e.countOffset) - 1)
fn has(e nodeindex.IndexElement, id u64) bool = first(e) <= id && id <= last(e)
fn slot(e nodeindex.IndexElement, id u64) u64 = u64(offOf(e.countOffset) + id - first(e))

contract nodeindex.CountOffset.Offset(co)
  props C11 C07 C12
  returns offOf(co)

contract nodeindex.CountOffset.Count(co)
  props C11 C07 C09 C12
  returns cntOf(co)

contract nodeindex.NewCountOffset(count, offset)
  props C11 C12
  safe count < 16777216 && offset < 1099511627776
  ensures refusal: count < 16777216 && offset < 1099511627776
  returns offset*16777216 + count

lemma entryRound(count int, offset int)
  props C11
  requires 0 <= count && count < 16777216 && 0 <= offset && offset < 1099511627776
  ensures cntOf(offset*16777216 + count) == count
  ensures offOf(offset*16777216 + count) == offset

contract nodeindex.IndexElement.FirstID(ie)
  props C11 C07
  returns first(ie)

contract nodeindex.IndexElement.LastID(ie)
  props C11 C07 C09
  returns last(ie)

contract nodeindex.IndexElement.Offset(ie)
  props C11
  returns offOf(ie.countOffset)

contract nodeindex.IndexElement.Count(ie)
  props C11 C09
  returns cntOf(ie.countOffset)

contract nodeindex.IndexElement.OffsetForID(ie, id)
  props C11 C07
  safe has(ie, id)
  ensures refusal: has(ie, id)
  returns slot(ie, id)

contract nodeindex.IndexElement.compareId(ie, id)
  props C11 C07
  returns ite(id < first(ie), 0-1, ite(id > last(ie), 1, 0))

contract nodeindex.IndexElement.contains(ie, id)
  props C11 C07
  returns has(ie, id)

# ---- lookup

# ascending disjoint ranges which lie within the locations
fn wfElem(e nodeindex.IndexElement, n int) bool = cntOf(e.countOffset) >= 1 && e.baseId + cntOf(e.countOffset) <= 18446744073709551615 && offOf(e.countOffset) + cntOf(e.countOffset) <= n
fn wfElems(es seq(nodeindex.IndexElement), n int) bool = forall(i, 0, len(es), wfElem(es[i], n)) && forall(i, 0, len(es), forall(j, i+1, len(es), last(es[i]) < first(es[j])))
fn noneAt(es seq(nodeindex.IndexElement), i int, id u64) bool = forall(k, i, len(es), !has(es[k], id))
fn noneHas(es seq(nodeindex.IndexElement), id u64) bool = noneAt(es, 0, id)

contract nodeindex.NodeSubIndex.findNodeActual(si, id, hint)
  props C07
  requires hint >= 0
  requires wfElems(els(si.element), len(si.locations))
  requires !isnil(si.parent)
  havocs si.parent.HitHint
  havocs si.parent.HitDefault
  havocs si.parent.MissDeferred
  havocs si.parent.MissDefault
  ensures above: imp(id > si.Top, result0 == 0 && !result2)
  ensures inside: imp(id <= si.Top, forall(k, 0, len(si.element), imp(has(si.element[k], id), result0 == si.locations[slot(si.element[k], id)] && result2 == (result0 != 0))))
  ensures outside: imp(noneHas(els(si.element), id), result0 == 0 && !result2)
  ensures found: result2 == (result0 != 0)
  ensures hint: result1 == hint || 0 <= result1 && result1 < len(si.element)
  loop 0
    inv 0 <= lowerPoint && lowerPoint <= upperPoint && upperPoint <= len(si.element)
    inv forall(k, 0, lowerPoint, last(si.element[k]) < id)
    inv forall(k, upperPoint, len(si.element), id < first(si.element[k]))

# the location stored for an id, 0 if there is none
fn locFind(es seq(nodeindex.IndexElement), locs seq(i64), i int, id u64) i64 decreases ite(i >= len(es), 0, len(es)-i) = ite(i >= len(es) || i < 0, 0, ite(has(es[i], id), locs[slot(es[i], id)], locFind(es, locs, i+1, id)))
fn locOf(es seq(nodeindex.IndexElement), locs seq(i64), top u64, id u64) i64 decreases 0 = ite(id > top, 0, locFind(es, locs, 0, id))
opaque locOf

fn noneFrom(es seq(nodeindex.IndexElement), i int, id u64) bool decreases ite(i >= len(es), 0, len(es)-i) = ite(i >= len(es) || i < 0, true, !has(es[i], id) && noneFrom(es, i+1, id))
lemma noneAll(es seq(nodeindex.IndexElement), i int, id u64)
  props C07 C17
  requires 0 <= i && i <= len(es) && noneFrom(es, i, id)
  ensures noneAt(es, i, id)
  decreases len(es)-i
  split i < len(es)
  unfold noneFrom(es, i, id)
  use imp(i < len(es), noneAll(es, i+1, id))

lemma locFindIs(es seq(nodeindex.IndexElement), locs seq(i64), i int, id u64, v i64)
  props C07 C17
  requires 0 <= i && i <= len(es)
  requires forall(k, i, len(es), imp(has(es[k], id), locs[slot(es[k], id)] == v))
  requires imp(noneFrom(es, i, id), v == 0)
  unfold noneFrom(es, i, id)
  ensures locFind(es, locs, i, id) == v
  decreases len(es)-i
  split i < len(es)
  unfold locFind(es, locs, i, id)
  split i < len(es) && has(es[i], id)
  use imp(i < len(es) && !has(es[i], id), locFindIs(es, locs, i+1, id, v))

lemma locOfIs(es seq(nodeindex.IndexElement), locs seq(i64), top u64, id u64, v i64)
  props C07 C17
  requires imp(id > top, v == 0)
  requires imp(id <= top, forall(k, 0, len(es), imp(has(es[k], id), locs[slot(es[k], id)] == v)))
  requires imp(noneHas(es, id), v == 0)
  ensures locOf(es, locs, top, id) == v
  unfold locOf(es, locs, top, id)
  split id <= top
  split noneFrom(es, 0, id)
  use imp(noneFrom(es, 0, id), noneAll(es, 0, id))
  use imp(id <= top, locFindIs(es, locs, 0, id, v))

contract nodeindex.NodeSubIndex.FindNode(si, id, hint)
  props C07 C17
  requires hint >= 0
  requires wfElems(els(si.element), len(si.locations))
  requires !isnil(si.parent)
  safe isnil(si.parent.lookupTimingCount)
  havocs si.parent.HitHint
  havocs si.parent.HitDefault
  havocs si.parent.MissDeferred
  havocs si.parent.MissDefault
  havocs si.parent.lookupTimingCount
  ensures above: imp(id > si.Top, result0 == 0 && !result2)
  ensures inside: imp(id <= si.Top, forall(k, 0, len(si.element), imp(has(si.element[k], id), result0 == si.locations[slot(si.element[k], id)] && result2 == (result0 != 0))))
  ensures outside: imp(noneHas(els(si.element), id), result0 == 0 && !result2)
  ensures hint: result1 == hint || 0 <= result1 && result1 < len(si.element)
  ensures timing: imp(isnil(si.parent.lookupTimingCount), isnil(new(si.parent.lookupTimingCount)))
  ensures value: result0 == locOf(els(si.element), els(si.locations), si.Top, id) && result2 == (result0 != 0)
  use locOfIs(els(si.element), els(si.locations), si.Top, id, result0)

# ---- passes

# the memory of a list of 64-bit numbers, little-endian
fn le64(x u64) bytes decreases 0 = bytes(x % 256, (x / 256) % 256, (x / 65536) % 256, (x / 16777216) % 256, (x / 4294967296) % 256, (x / 1099511627776) % 256, (x / 281474976710656) % 256, x / 72057594037927936)
opaque le64
fn leI(xs seq(i64), i int) bytes decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, empty(bytes), cat(le64(u64(xs[i])), leI(xs, i+1)))
fn leU(xs seq(u64), i int) bytes decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, empty(bytes), cat(le64(xs[i]), leU(xs, i+1)))
fn viewbytes_i64(xs seq(i64)) bytes decreases 0 = leI(xs, 0)
fn viewbytes_u64(xs seq(u64)) bytes decreases 0 = leU(xs, 0)
opaque viewbytes_i64
opaque viewbytes_u64
ufn view_i64(b bytes) seq(i64)
ufn view_IndexElement(b bytes) seq(nodeindex.IndexElement)
fn entries(xs seq(i64)) seq(nodeindex.IndexElement) = view_IndexElement(viewbytes_i64(xs))

# the first entry at which the running count reaches the target, and the count there
fn cut(es seq(nodeindex.IndexElement), i int, tot u64, target u64) int decreases ite(i >= len(es), 0, len(es)-i) = ite(i >= len(es) || i < 0, len(es), ite(tot >= target, i, cut(es, i+1, u64(tot+cntOf(es[i].countOffset)), target)))
fn cutTot(es seq(nodeindex.IndexElement), i int, tot u64, target u64) u64 decreases ite(i >= len(es), 0, len(es)-i) = ite(i >= len(es) || i < 0, tot, ite(tot >= target, tot, cutTot(es, i+1, u64(tot+cntOf(es[i].countOffset)), target)))

fn passTarget(n int, cur int, count int) int = u64((n/count)*cur)
fn passFrom(es seq(nodeindex.IndexElement), n int, cur int, count int) int = cut(es, 0, 0, passTarget(n, cur, count))
fn passTo(es seq(nodeindex.IndexElement), n int, cur int, count int) int = ite(cur+1 < count, cut(es, passFrom(es, n, cur, count), cutTot(es, 0, 0, passTarget(n, cur, count)), u64(passTarget(n, cur, count)+n/count)), len(es))

contract nodeindex.NodeIndex.SubIndex(idx, curPass, countPass)
  props C09
  requires curPass < countPass
  ensures els(result0.element) == entries(els(idx.elements))[passFrom(entries(els(idx.elements)), len(idx.locations), curPass, countPass):passTo(entries(els(idx.elements)), len(idx.locations), curPass, countPass)]
  ensures els(result0.locations) == els(idx.locations)
  ensures result0.Top == ite(passTo(entries(els(idx.elements)), len(idx.locations), curPass, countPass) > 0, last(entries(els(idx.elements))[passTo(entries(els(idx.elements)), len(idx.locations), curPass, countPass)-1]), 0)
  loop 0
    inv 0 <= i && i <= len(subIds)
    inv cut(els(subIds), 0, 0, startTarget) == cut(els(subIds), i, runningTotal, startTarget)
    inv cutTot(els(subIds), 0, 0, startTarget) == cutTot(els(subIds), i, runningTotal, startTarget)
    inv startIndex == len(subIds)
  loop 1
    inv startIndex <= i && i <= len(subIds)
    inv cut(els(subIds), startIndex, begin(runningTotal), endTarget) == cut(els(subIds), i, runningTotal, endTarget)
    inv endIndex == len(subIds)
    inv cut(els(subIds), 0, 0, startTarget) == startIndex
    inv cutTot(els(subIds), 0, 0, startTarget) == begin(runningTotal)

lemma cutRange(es seq(nodeindex.IndexElement), i int, tot u64, T u64)
  props C09
  requires 0 <= i && i <= len(es)
  ensures i <= cut(es, i, tot, T) && cut(es, i, tot, T) <= len(es)
  split i < len(es)
  unfold cut(es, i, tot, T)
  use imp(i < len(es), cutRange(es, i+1, u64(tot+cntOf(es[i].countOffset)), T))
  decreases len(es) - i

# the later boundary is found from the earlier one
lemma cutChain(es seq(nodeindex.IndexElement), i int, tot u64, T u64, U u64)
  props C09
  requires 0 <= i && i <= len(es) && T <= U
  ensures cut(es, i, tot, U) == cut(es, cut(es, i, tot, T), cutTot(es, i, tot, T), U)
  split i < len(es)
  unfold cut(es, i, tot, T)
  unfold cutTot(es, i, tot, T)
  unfold cut(es, i, tot, U)
  use imp(i < len(es), cutChain(es, i+1, u64(tot+cntOf(es[i].countOffset)), T, U))
  decreases len(es) - i

lemma targets(n int, cur int, count int)
  props C09
  requires 0 <= n && n < 9223372036854775808 && 0 <= cur && cur + 1 < count
  ensures u64((n/count)*cur) == (n/count)*cur
  ensures u64(passTarget(n, cur, count)+n/count) == passTarget(n, cur+1, count)
  ensures passTarget(n, cur, count) <= passTarget(n, cur+1, count)

fn passUpto(es seq(nodeindex.IndexElement), n int, p int, count int) seq(nodeindex.IndexElement) decreases p = ite(p <= 0, es[0:0], cat(passUpto(es, n, p-1, count), es[passFrom(es, n, p-1, count):passTo(es, n, p-1, count)]))

lemma passesJoin(es seq(nodeindex.IndexElement), n int, p int, count int)
  props C09
  requires 0 <= n && n < 9223372036854775808 && 0 <= p && p+1 < count
  ensures passTo(es, n, p, count) == passFrom(es, n, p+1, count)
  ensures 0 <= passFrom(es, n, p, count) && passFrom(es, n, p, count) <= passFrom(es, n, p+1, count) && passFrom(es, n, p+1, count) <= len(es)
  use targets(n, p, count)
  use cutChain(es, 0, 0, passTarget(n, p, count), passTarget(n, p+1, count))
  use cutRange(es, 0, 0, passTarget(n, p, count))
  use cutRange(es, 0, 0, passTarget(n, p+1, count))
  use cutRange(es, passFrom(es, n, p, count), cutTot(es, 0, 0, passTarget(n, p, count)), passTarget(n, p+1, count))

# the passes before pass p cover exactly the entries before its first
lemma passesPrefix(es seq(nodeindex.IndexElement), n int, p int, count int)
  props C09
  requires 0 <= n && n < 9223372036854775808 && 0 <= p && p < count
  ensures passUpto(es, n, p, count) == es[0:passFrom(es, n, p, count)]
  split p > 0
  unfold passUpto(es, n, p, count)
  unfold cut(es, 0, 0, 0)
  use imp(p > 0, passesPrefix(es, n, p-1, count))
  use imp(p > 0, passesJoin(es, n, p-1, count))
  decreases p

# all passes together are all entries
lemma passesAll(es seq(nodeindex.IndexElement), n int, count int)
  props C09
  requires 0 <= n && n < 9223372036854775808 && 1 <= count
  ensures passUpto(es, n, count, count) == es
  unfold passUpto(es, n, count, count)
  use passesPrefix(es, n, count-1, count)
  use cutRange(es, 0, 0, passTarget(n, count-1, count))
