# String tables.

# byte order of strings: -1, 0 or 1
ufn strCmp(a bytes, b bytes) int
contract strings.Compare(a, b)
  trusted
  ensures result == strCmp(a, b) && 0-1 <= result && result <= 1

fn freqAdd(m gomap(bytes,u32), s bytes) gomap(bytes,u32) decreases 0 = ite(len(s) == 0, m, mapput(m, s, ite(maphas(m, s), u32(mapval(m, s)+1), 1)))
fn listAdd(m gomap(bytes,u32), xs seq(bytes), s bytes) seq(bytes) decreases 0 = ite(len(s) == 0 || maphas(m, s), xs, push(xs, s))

opaque freqAdd
opaque listAdd
lemma freqDef(m gomap(bytes,u32), s bytes)
  props C19
  ensures freqAdd(m, s) == ite(len(s) == 0, m, mapput(m, s, ite(maphas(m, s), u32(mapval(m, s)+1), 1)))
  unfold freqAdd(m, s)
lemma listDef(m gomap(bytes,u32), xs seq(bytes), s bytes)
  props C19
  ensures listAdd(m, xs, s) == ite(len(s) == 0 || maphas(m, s), xs, push(xs, s))
  unfold listAdd(m, xs, s)
lemma freqNil(m gomap(bytes,u32), s bytes)
  props C19
  ensures isnil(freqAdd(m, s)) == isnil(m)
  unfold freqAdd(m, s)
  trigger freqAdd(m, s)

fn freqInit() gomap(bytes,u32) decreases 0 = mapput(mapnew("gomap(bytes,u32)"), empty(bytes), 4294967295)
fn listInit() seq(bytes) decreases 0 = push(empty(seq(bytes)), empty(bytes))

opaque freqInit
opaque listInit
lemma initDef()
  props C19
  ensures freqInit() == mapput(mapnew("gomap(bytes,u32)"), empty(bytes), 4294967295)
  ensures listInit() == push(empty(seq(bytes)), empty(bytes))
  unfold freqInit()
  unfold listInit()

nonil t.stringTableBuilder.stringList
contract t.NewStringTableBuilder()
  props C19
  use initDef()
  ensures !isnil(result) && result.stringFrequency == freqInit() && els(result.stringList) == listInit()

contract t.stringTableBuilder.AddString(stb, s)
  props C19
  safe !isnil(stb.stringFrequency)
  use freqDef(stb.stringFrequency, s)
  use listDef(stb.stringFrequency, els(stb.stringList), s)
  sets stb.stringFrequency = freqAdd(stb.stringFrequency, s)
  sets stb.stringList = sl(listAdd(stb.stringFrequency, els(stb.stringList), s))

contract t.stringTableBuilder.GetIndex(stb, s)
  props C19
  safe maphas(stb.stringIndex, s)
  ensures refusal: maphas(stb.stringIndex, s)
  returns mapval(stb.stringIndex, s)

contract t.stringTableBuilder.ToStringTable(stb)
  props C19
  ensures !isnil(result) && els(result.S) == els(stb.stringList)

# a history of added strings
fn hF(m gomap(bytes,u32), adds seq(bytes)) gomap(bytes,u32) decreases len(adds) = ite(len(adds) == 0, m, hF(freqAdd(m, adds[0]), adds[1:]))
fn hL(m gomap(bytes,u32), xs seq(bytes), adds seq(bytes)) seq(bytes) decreases len(adds) = ite(len(adds) == 0, xs, hL(freqAdd(m, adds[0]), listAdd(m, xs, adds[0]), adds[1:]))

# the order in which each range over a map of strings visits its keys
ghost rangeOrders seq(seq(bytes))
fn isOrder(o seq(bytes), m gomap(bytes,bytes)) bool = sortedStrings(o) == sortedKeys(mapdom(m))
fn kvAdds(m gomap(bytes,bytes), o seq(bytes), i int) seq(bytes) decreases ite(i >= len(o), 0, len(o)-i) = ite(i >= len(o) || i < 0, empty(seq(bytes)), cons(o[i], cons(mapval(m, o[i]), kvAdds(m, o, i+1))))

lemma hFkv(f gomap(bytes,u32), m gomap(bytes,bytes), o seq(bytes), i int)
  props C19
  requires 0 <= i
  ensures hF(f, kvAdds(m, o, i)) == ite(i >= len(o), f, hF(freqAdd(freqAdd(f, o[i]), mapval(m, o[i])), kvAdds(m, o, i+1)))
  split i >= len(o)
  unfold kvAdds(m, o, i)
lemma hLkv(f gomap(bytes,u32), xs seq(bytes), m gomap(bytes,bytes), o seq(bytes), i int)
  props C19
  requires 0 <= i
  ensures hL(f, xs, kvAdds(m, o, i)) == ite(i >= len(o), xs, hL(freqAdd(freqAdd(f, o[i]), mapval(m, o[i])), listAdd(freqAdd(f, o[i]), listAdd(f, xs, o[i]), mapval(m, o[i])), kvAdds(m, o, i+1)))
  split i >= len(o)
  unfold kvAdds(m, o, i)

contract t.stringTableBuilder.AddMap(stb, m)
  props C19 C26
  safe !isnil(stb.stringFrequency)
  havocs rangeOrders
  havocs stb.stringFrequency
  havocs stb.stringList
  ensures len(new(rangeOrders)) == len(rangeOrders) + 1 && new(rangeOrders)[:len(rangeOrders)] == rangeOrders && isOrder(new(rangeOrders)[len(rangeOrders)], m)
  ensures new(stb.stringFrequency) == hF(stb.stringFrequency, kvAdds(m, new(rangeOrders)[len(rangeOrders)], 0))
  ensures els(new(stb.stringList)) == hL(stb.stringFrequency, els(stb.stringList), kvAdds(m, new(rangeOrders)[len(rangeOrders)], 0))
  loop 0
    use hFkv(stb.stringFrequency, m, rangeOrders[len(rangeOrders)-1], iter)
    use hLkv(stb.stringFrequency, els(stb.stringList), m, rangeOrders[len(rangeOrders)-1], iter)
    inv hF(stb.stringFrequency, kvAdds(m, rangeOrders[len(rangeOrders)-1], iter)) == hF(old(stb.stringFrequency), kvAdds(m, rangeOrders[len(rangeOrders)-1], 0))
    inv hL(stb.stringFrequency, els(stb.stringList), kvAdds(m, rangeOrders[len(rangeOrders)-1], iter)) == hL(old(stb.stringFrequency), els(old(stb.stringList)), kvAdds(m, rangeOrders[len(rangeOrders)-1], 0))
    inv imp(!isnil(old(stb.stringFrequency)), !isnil(stb.stringFrequency))

# the order of the finished table
fn useCount(f gomap(bytes,u32), s bytes) int = ite(maphas(f, s), mapval(f, s), 0)
fn freqLess(a bytes, b bytes, f gomap(bytes,u32)) bool = ite(useCount(f, a) != useCount(f, b), useCount(f, a) > useCount(f, b), strCmp(a, b) < 0)
ufn freqSort(xs seq(bytes), f gomap(bytes,u32)) seq(bytes)
contract t.stringTableBuilder.Finalize$1(i, j)
  props C19
  safe 0 <= i && i < len(stb.stringList) && 0 <= j && j < len(stb.stringList)
  returns freqLess(stb.stringList[i], stb.stringList[j], stb.stringFrequency)
  sorter freqSort(els(stb.stringList), stb.stringFrequency)

fn idxFold(xs seq(bytes), i int, m gomap(bytes,u32)) gomap(bytes,u32) decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, m, idxFold(xs, i+1, mapput(m, xs[i], u32(i))))
contract t.stringTableBuilder.Finalize(stb)
  props C19
  safe !isnil(stb.stringFrequency)
  sets stb.stringList = sl(freqSort(els(stb.stringList), stb.stringFrequency))
  havocs stb.stringFrequency
  ensures isnil(new(stb.stringFrequency))
  sets stb.stringIndex = idxFold(freqSort(els(stb.stringList), stb.stringFrequency), 0, stb.stringFrequency)
  loop 0
    inv idxFold(els(stb.stringList), iter, stb.stringIndex) == idxFold(els(stb.stringList), 0, old(stb.stringFrequency))

# tag sets as index lists, in key order
fn mget(m gomap(bytes,bytes), k bytes) bytes = ite(maphas(m, k), mapval(m, k), empty(bytes))
fn keyIdx(ix gomap(bytes,u32), ks seq(bytes), i int) seq(u32) decreases ite(i >= len(ks), 0, len(ks)-i) = ite(i >= len(ks) || i < 0, empty(seq(u32)), cons(mapval(ix, ks[i]), keyIdx(ix, ks, i+1)))
fn valIdx(ix gomap(bytes,u32), m gomap(bytes,bytes), ks seq(bytes), i int) seq(u32) decreases ite(i >= len(ks), 0, len(ks)-i) = ite(i >= len(ks) || i < 0, empty(seq(u32)), cons(mapval(ix, mget(m, ks[i])), valIdx(ix, m, ks, i+1)))
fn linIdx(ix gomap(bytes,u32), m gomap(bytes,bytes), ks seq(bytes), i int) seq(i32) decreases ite(i >= len(ks), 0, len(ks)-i) = ite(i >= len(ks) || i < 0, empty(seq(i32)), cons(i32(mapval(ix, ks[i])), cons(i32(mapval(ix, mget(m, ks[i]))), linIdx(ix, m, ks, i+1))))
fn kvKnown(ix gomap(bytes,u32), m gomap(bytes,bytes), ks seq(bytes), i int) bool decreases ite(i >= len(ks), 0, len(ks)-i) = ite(i >= len(ks) || i < 0, true, maphas(ix, ks[i]) && maphas(ix, mget(m, ks[i])) && kvKnown(ix, m, ks, i+1))

lemma sortedWhole(o seq(bytes), xs seq(bytes), d map(bytes,bool))
  props C19
  requires len(xs) == len(o) && cat(xs, o[len(xs):]) == o && sortedStrings(o) == sortedKeys(d)
  ensures xs == o
  ensures sortedStrings(xs) == sortedKeys(d)
contract t.stringTableBuilder.ToKeyVals(stb, m)
  props C19 C26
  safe kvKnown(stb.stringIndex, m, sortedKeys(mapdom(m)), 0)
  ensures refusal: kvKnown(stb.stringIndex, m, sortedKeys(mapdom(m)), 0)
  ensures els(result0) == keyIdx(stb.stringIndex, sortedKeys(mapdom(m)), 0)
  ensures els(result1) == valIdx(stb.stringIndex, m, sortedKeys(mapdom(m)), 0)
  loop 0
    use imp(iter >= len(rangeOrder), sortedWhole(rangeOrder, sortedKeys, mapdom(m)))
    inv iter <= len(rangeOrder) && cat(sortedKeys, rangeOrder[iter:]) == rangeOrder
  loop 1
    inv sortedKeys == sortedKeys(mapdom(m))
    inv kvKnown(stb.stringIndex, m, sortedKeys, iter) == kvKnown(stb.stringIndex, m, sortedKeys, 0)
    inv cat(ks, keyIdx(stb.stringIndex, sortedKeys, iter)) == keyIdx(stb.stringIndex, sortedKeys, 0)
    inv cat(vs, valIdx(stb.stringIndex, m, sortedKeys, iter)) == valIdx(stb.stringIndex, m, sortedKeys, 0)

contract t.stringTableBuilder.ToKeyValLinear(stb, m)
  props C19 C26
  safe kvKnown(stb.stringIndex, m, sortedKeys(mapdom(m)), 0)
  ensures refusal: kvKnown(stb.stringIndex, m, sortedKeys(mapdom(m)), 0)
  ensures els(result) == linIdx(stb.stringIndex, m, sortedKeys(mapdom(m)), 0)
  loop 0
    use imp(iter >= len(rangeOrder), sortedWhole(rangeOrder, sortedKeys, mapdom(m)))
    inv iter <= len(rangeOrder) && cat(sortedKeys, rangeOrder[iter:]) == rangeOrder
  loop 1
    inv sortedKeys == sortedKeys(mapdom(m))
    inv kvKnown(stb.stringIndex, m, sortedKeys, iter) == kvKnown(stb.stringIndex, m, sortedKeys, 0)
    inv cat(ids, linIdx(stb.stringIndex, m, sortedKeys, iter)) == linIdx(stb.stringIndex, m, sortedKeys, 0)

# What the above means for any history of additions to a new builder.
fn inAdds(adds seq(bytes), s bytes) bool decreases len(adds) = ite(len(adds) == 0, false, adds[0] == s || inAdds(adds[1:], s))
fn cntAdds(adds seq(bytes), s bytes) int decreases len(adds) = ite(len(adds) == 0, 0, ite(adds[0] == s, 1, 0) + cntAdds(adds[1:], s))
fn inL(xs seq(bytes), s bytes, i int) bool decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, false, xs[i] == s || inL(xs, s, i+1))
fn noDup(xs seq(bytes), i int) bool decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, true, !inL(xs, xs[i], i+1) && noDup(xs, i+1))
fn posL(xs seq(bytes), s bytes, i int) int decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, i, ite(xs[i] == s, i, posL(xs, s, i+1)))

lemma cntBound(adds seq(bytes), s bytes)
  props C19
  ensures 0 <= cntAdds(adds, s) && cntAdds(adds, s) <= len(adds)
  use imp(len(adds) > 0, cntBound(adds[1:], s))
  unfold cntAdds(adds, s)
  decreases len(adds)

lemma useAdd(m gomap(bytes,u32), a bytes, s bytes)
  props C19
  ensures maphas(freqAdd(m, a), s) == (maphas(m, s) || len(a) > 0 && a == s)
  ensures useCount(freqAdd(m, a), s) == ite(len(a) > 0 && a == s, u32(useCount(m, s) + 1), useCount(m, s))
  split a == s
  unfold freqAdd(m, a)

lemma histHas(m gomap(bytes,u32), adds seq(bytes), s bytes)
  props C19
  ensures maphas(hF(m, adds), s) == (maphas(m, s) || len(s) > 0 && inAdds(adds, s))
  use imp(len(adds) > 0, useAdd(m, adds[0], s))
  use imp(len(adds) > 0, histHas(freqAdd(m, adds[0]), adds[1:], s))
  decreases len(adds)

lemma histCount(m gomap(bytes,u32), adds seq(bytes), s bytes)
  props C19
  requires 0 <= useCount(m, s) && (len(s) == 0 || useCount(m, s) + cntAdds(adds, s) < 4294967296)
  split len(adds) == 0
  split adds[0] == s
  split len(s) > 0
  split maphas(m, s)
  unfold cntAdds(adds, s)
  ensures imp(len(s) > 0, useCount(hF(m, adds), s) == useCount(m, s) + cntAdds(adds, s))
  ensures imp(len(s) == 0, useCount(hF(m, adds), s) == useCount(m, s))
  use imp(len(adds) > 0, cntBound(adds[1:], s))
  use imp(len(adds) > 0, useAdd(m, adds[0], s))
  use imp(len(adds) > 0, histCount(freqAdd(m, adds[0]), adds[1:], s))
  decreases len(adds)

lemma inPush(xs seq(bytes), a bytes, s bytes, i int)
  props C19
  requires 0 <= i && i <= len(xs)
  ensures inL(push(xs, a), s, i) == (inL(xs, s, i) || a == s)
  split i < len(xs)
  unfold inL(push(xs, a), s, i)
  unfold inL(push(xs, a), s, i+1)
  use imp(i < len(xs), inPush(xs, a, s, i+1))
  decreases len(xs) - i
lemma dupPush(xs seq(bytes), a bytes, i int)
  props C19
  requires 0 <= i && i <= len(xs) && noDup(xs, i) && !inL(xs, a, i)
  ensures noDup(push(xs, a), i)
  split i < len(xs)
  unfold noDup(push(xs, a), i)
  unfold noDup(push(xs, a), i+1)
  unfold inL(push(xs, a), a, i+1)
  use imp(i < len(xs), inPush(xs, a, xs[i], i+1))
  use imp(i < len(xs), dupPush(xs, a, i+1))
  decreases len(xs) - i

fn agree(m gomap(bytes,u32), xs seq(bytes), s bytes) bool = maphas(m, s) == inL(xs, s, 0)
fn agreeAll(m gomap(bytes,u32), xs seq(bytes), adds seq(bytes)) bool decreases len(adds) = ite(len(adds) == 0, true, agree(m, xs, adds[0]) && agreeAll(m, xs, adds[1:]))
lemma agreeAdd(m gomap(bytes,u32), xs seq(bytes), a bytes, s bytes)
  props C19
  requires agree(m, xs, a) && agree(m, xs, s)
  ensures agree(freqAdd(m, a), listAdd(m, xs, a), s)
  use useAdd(m, a, s)
  use inPush(xs, a, s, 0)
  split len(a) == 0 || maphas(m, a)
  unfold listAdd(m, xs, a)
lemma agreeStep(m gomap(bytes,u32), xs seq(bytes), a bytes, adds seq(bytes))
  props C19
  requires agree(m, xs, a) && agreeAll(m, xs, adds)
  ensures agreeAll(freqAdd(m, a), listAdd(m, xs, a), adds)
  use imp(len(adds) > 0, agreeAdd(m, xs, a, adds[0]))
  use imp(len(adds) > 0, agreeStep(m, xs, a, adds[1:]))
  decreases len(adds)
lemma histList(m gomap(bytes,u32), xs seq(bytes), adds seq(bytes), s bytes)
  props C19
  requires agree(m, xs, s) && agreeAll(m, xs, adds)
  ensures agree(hF(m, adds), hL(m, xs, adds), s)
  use imp(len(adds) > 0, agreeAdd(m, xs, adds[0], s))
  use imp(len(adds) > 0, agreeStep(m, xs, adds[0], adds[1:]))
  use imp(len(adds) > 0, histList(freqAdd(m, adds[0]), listAdd(m, xs, adds[0]), adds[1:], s))
  decreases len(adds)
lemma dupAdd(m gomap(bytes,u32), xs seq(bytes), a bytes)
  props C19
  requires agree(m, xs, a) && noDup(xs, 0)
  ensures noDup(listAdd(m, xs, a), 0)
  split len(a) == 0 || maphas(m, a)
  use imp(!maphas(m, a), dupPush(xs, a, 0))
  unfold listAdd(m, xs, a)
lemma histOnce(m gomap(bytes,u32), xs seq(bytes), adds seq(bytes))
  props C19
  requires agreeAll(m, xs, adds) && noDup(xs, 0)
  ensures noDup(hL(m, xs, adds), 0)
  use imp(len(adds) > 0, dupAdd(m, xs, adds[0]))
  use imp(len(adds) > 0, agreeStep(m, xs, adds[0], adds[1:]))
  use imp(len(adds) > 0, histOnce(freqAdd(m, adds[0]), listAdd(m, xs, adds[0]), adds[1:]))
  decreases len(adds)
lemma initAgree(s bytes)
  props C19
  ensures agree(freqInit(), listInit(), s) && maphas(freqInit(), s) == (len(s) == 0)
  split len(s) == 0
  unfold freqInit()
  unfold listInit()
  unfold inL(push(empty(seq(bytes)), empty(bytes)), s, 0)
lemma initMax()
  props C19
  ensures useCount(freqInit(), empty(bytes)) == 4294967295
  unfold freqInit()
lemma initOnce()
  props C19
  ensures noDup(listInit(), 0)
  unfold listInit()
lemma agreeInit(adds seq(bytes))
  props C19
  use imp(len(adds) > 0, initAgree(adds[0]))
  ensures agreeAll(freqInit(), listInit(), adds)
  use imp(len(adds) > 0, agreeInit(adds[1:]))
  decreases len(adds)

# sort.Slice: a permutation, ascending by its comparator
lemma sortPerm(xs seq(bytes), f gomap(bytes,u32), s bytes)
  trusted
  ensures inL(freqSort(xs, f), s, 0) == inL(xs, s, 0)
  ensures noDup(freqSort(xs, f), 0) == noDup(xs, 0)
lemma sortOrder(xs seq(bytes), f gomap(bytes,u32), i int, j int)
  trusted
  requires 0 <= i && i < j && j < len(xs)
  ensures !freqLess(freqSort(xs, f)[j], freqSort(xs, f)[i], f)

# the finished table
fn tableOf(adds seq(bytes)) seq(bytes) = freqSort(hL(freqInit(), listInit(), adds), hF(freqInit(), adds))
fn indexOf(adds seq(bytes)) gomap(bytes,u32) = idxFold(tableOf(adds), 0, hF(freqInit(), adds))

lemma tableHas(adds seq(bytes), s bytes)
  props C19
  ensures inL(tableOf(adds), s, 0) == (len(s) == 0 || inAdds(adds, s))
  ensures noDup(tableOf(adds), 0)
  use agreeInit(adds)
  use initAgree(s)
  use initOnce()
  use histHas(freqInit(), adds, s)
  use histList(freqInit(), listInit(), adds, s)
  use histOnce(freqInit(), listInit(), adds)
  use sortPerm(hL(freqInit(), listInit(), adds), hF(freqInit(), adds), s)

lemma findIn(xs seq(bytes), s bytes, i int)
  props C19
  requires 0 <= i && i <= len(xs) && inL(xs, s, i)
  ensures i <= posL(xs, s, i) && posL(xs, s, i) < len(xs) && xs[posL(xs, s, i)] == s
  split xs[i] == s
  use imp(i < len(xs) && xs[i] != s, findIn(xs, s, i+1))
  decreases len(xs) - i
lemma tableFirst(adds seq(bytes))
  props C19
  requires len(adds) < 4294967295
  ensures len(tableOf(adds)) > 0 && len(tableOf(adds)[0]) == 0
  use tableHas(adds, empty(bytes))
  use initAgree(tableOf(adds)[0])
  use initMax()
  use findIn(tableOf(adds), empty(bytes), 0)
  use cntBound(adds, tableOf(adds)[0])
  use histCount(freqInit(), adds, empty(bytes))
  use histCount(freqInit(), adds, tableOf(adds)[0])
  use imp(posL(tableOf(adds), empty(bytes), 0) > 0, sortOrder(hL(freqInit(), listInit(), adds), hF(freqInit(), adds), 0, posL(tableOf(adds), empty(bytes), 0)))
lemma tableOrder(adds seq(bytes), i int, j int)
  props C19
  requires 0 <= i && i < j && j < len(tableOf(adds)) && len(adds) < 4294967295 && len(tableOf(adds)[i]) > 0 && len(tableOf(adds)[j]) > 0
  ensures cntAdds(adds, tableOf(adds)[i]) > cntAdds(adds, tableOf(adds)[j]) || cntAdds(adds, tableOf(adds)[i]) == cntAdds(adds, tableOf(adds)[j]) && strCmp(tableOf(adds)[j], tableOf(adds)[i]) >= 0
  use initAgree(tableOf(adds)[i])
  use initAgree(tableOf(adds)[j])
  use cntBound(adds, tableOf(adds)[i])
  use cntBound(adds, tableOf(adds)[j])
  use histCount(freqInit(), adds, tableOf(adds)[i])
  use histCount(freqInit(), adds, tableOf(adds)[j])
  use sortOrder(hL(freqInit(), listInit(), adds), hF(freqInit(), adds), i, j)

# every index is the position of its string
lemma idxHas(xs seq(bytes), i int, m gomap(bytes,u32), s bytes)
  props C19
  requires 0 <= i
  ensures maphas(idxFold(xs, i, m), s) == (maphas(m, s) || inL(xs, s, i))
  ensures imp(!inL(xs, s, i), mapval(idxFold(xs, i, m), s) == mapval(m, s))
  split i < len(xs)
  split xs[i] == s
  use imp(i < len(xs), idxHas(xs, i+1, mapput(m, xs[i], u32(i)), s))
  decreases ite(i >= len(xs), 0, len(xs)-i)
lemma idxAt(xs seq(bytes), i int, m gomap(bytes,u32), k int)
  props C19
  requires 0 <= i && i <= k && k < len(xs) && noDup(xs, i)
  ensures mapval(idxFold(xs, i, m), xs[k]) == u32(k)
  split i == k
  use imp(i == k, idxHas(xs, i+1, mapput(m, xs[i], u32(i)), xs[k]))
  use imp(i < k, idxAt(xs, i+1, mapput(m, xs[i], u32(i)), k))
  decreases len(xs)-i
lemma indexes(adds seq(bytes), s bytes, k int)
  props C19
  requires len(tableOf(adds)) <= 4294967296
  ensures maphas(indexOf(adds), s) == (len(s) == 0 || inAdds(adds, s))
  ensures imp(0 <= k && k < len(tableOf(adds)), mapval(indexOf(adds), tableOf(adds)[k]) == k)
  use tableHas(adds, s)
  use initAgree(s)
  use histHas(freqInit(), adds, s)
  use idxHas(tableOf(adds), 0, hF(freqInit(), adds), s)
  use imp(0 <= k && k < len(tableOf(adds)), idxAt(tableOf(adds), 0, hF(freqInit(), adds), k))
