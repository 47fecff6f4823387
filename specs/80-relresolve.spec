# Resolving a relation index against a way index, one pass at a time.

# ---- the memory view of a concatenation is the concatenation of the views

lemma leTail(a seq(i64), b seq(i64), i int)
  props C21
  requires 0 <= i && i <= len(b)
  ensures leI(cat(a, b), len(a)+i) == leI(b, i)
  split i < len(b)
  unfold leI(b, i)
  unfold leI(cat(a, b), len(a)+i)
  use imp(i < len(b), leTail(a, b, i+1))
  decreases len(b) - i

lemma leCat(a seq(i64), b seq(i64), i int)
  props C21
  requires 0 <= i && i <= len(a)
  ensures leI(cat(a, b), i) == cat(leI(a, i), leI(b, 0))
  split i < len(a)
  unfold leI(a, i)
  unfold leI(cat(a, b), i)
  use imp(i < len(a), leCat(a, b, i+1))
  use imp(i == len(a), leTail(a, b, 0))
  decreases len(a) - i

lemma viewCat(a seq(i64), b seq(i64))
  props C21
  ensures viewbytes_i64(cat(a, b)) == cat(viewbytes_i64(a), viewbytes_i64(b))
  unfold viewbytes_i64(cat(a, b))
  unfold viewbytes_i64(a)
  unfold viewbytes_i64(b)
  use leCat(a, b, 0)

lemma viewEmpty(x int)
  props C21
  ensures viewbytes_i64(empty(seq(i64))) == empty(bytes)
  unfold viewbytes_i64(empty(seq(i64)))
  unfold leI(empty(seq(i64)), 0)

# ---- one member, one relation, one file

fn isResolved(ids seq(u64), top int, id int) bool = id <= top && wKnown(ids, id)
# the member at i: an unresolved way is replaced when the pass covers it, or by an empty list in the last pass
fn resMember(u seq(i64), i int, ids seq(u64), loc bytes, s int, top int, last bool) seq(i64) decreases 0 = ite(u[i] < 0, ite(isResolved(ids, top, i64(0-u[i])), cons(i64(0-u[i]), cons(len(wLocs(ids, loc, s, i64(0-u[i]))), wLocs(ids, loc, s, i64(0-u[i])))), ite(last, cons(i64(0-u[i]), cons(0, empty(seq(i64)))), cons(u[i], empty(seq(i64))))), cons(u[i], cons(u[i+1], u[i+2:i+2+u[i+1]])))
opaque resMember
fn resNext(u seq(i64), i int) int = ite(u[i] < 0, i+1, i+2+u[i+1])
fn resMembers(u seq(i64), i int, n int, ids seq(u64), loc bytes, s int, top int, last bool) seq(i64) decreases ite(n <= 0, 0, n) = ite(n <= 0, empty(seq(i64)), cat(resMember(u, i, ids, loc, s, top, last), resMembers(u, resNext(u, i), n-1, ids, loc, s, top, last)))
fn resEnd(u seq(i64), i int, n int) int decreases ite(n <= 0, 0, n) = ite(n <= 0, i, resEnd(u, resNext(u, i), n-1))
fn resFile(u seq(i64), i int, ids seq(u64), loc bytes, s int, top int, last bool) seq(i64) decreases ite(i >= len(u), 0, len(u)-i) = ite(i >= len(u) || i < 0 || resEnd(u, i+2, u[i+1]) <= i, empty(seq(i64)), cons(u[i], cons(u[i+1], cat(resMembers(u, i+2, u[i+1], ids, loc, s, top, last), resFile(u, resEnd(u, i+2, u[i+1]), ids, loc, s, top, last)))))

lemma rmCases(u seq(i64), i int, ids seq(u64), loc bytes, s int, top int, last bool)
  props C21
  ensures imp(u[i] >= 0, resMember(u, i, ids, loc, s, top, last) == cons(u[i], cons(u[i+1], u[i+2:i+2+u[i+1]])))
  ensures imp(u[i] < 0 && isResolved(ids, top, i64(0-u[i])), resMember(u, i, ids, loc, s, top, last) == cons(i64(0-u[i]), cons(len(wLocs(ids, loc, s, i64(0-u[i]))), wLocs(ids, loc, s, i64(0-u[i])))))
  ensures imp(u[i] < 0 && !isResolved(ids, top, i64(0-u[i])) && last, resMember(u, i, ids, loc, s, top, last) == cons(i64(0-u[i]), cons(0, empty(seq(i64)))))
  ensures imp(u[i] < 0 && !isResolved(ids, top, i64(0-u[i])) && !last, resMember(u, i, ids, loc, s, top, last) == cons(u[i], empty(seq(i64))))
  unfold resMember(u, i, ids, loc, s, top, last)

fn resRel(u seq(i64), i int, ids seq(u64), loc bytes, s int, top int, last bool) seq(i64) = cons(u[i], cons(u[i+1], resMembers(u, i+2, u[i+1], ids, loc, s, top, last)))
lemma resDone(u seq(i64), i int, ids seq(u64), loc bytes, s int, top int, last bool)
  props C21
  requires i >= len(u)
  ensures viewbytes_i64(resFile(u, i, ids, loc, s, top, last)) == empty(bytes)
  unfold resFile(u, i, ids, loc, s, top, last)
  use viewEmpty(0)
lemma resStep(od seq(i64), u seq(i64), i int, ids seq(u64), loc bytes, s int, top int, last bool)
  props C21
  requires 0 <= i && i+1 < len(u) && resEnd(u, i+2, u[i+1]) > i
  ensures cat(viewbytes_i64(od), viewbytes_i64(resFile(u, i, ids, loc, s, top, last))) == cat(viewbytes_i64(cat(od, resRel(u, i, ids, loc, s, top, last))), viewbytes_i64(resFile(u, resEnd(u, i+2, u[i+1]), ids, loc, s, top, last)))
  unfold resFile(u, i, ids, loc, s, top, last)
  use viewCat(od, resRel(u, i, ids, loc, s, top, last))
  use viewCat(resRel(u, i, ids, loc, s, top, last), resFile(u, resEnd(u, i+2, u[i+1]), ids, loc, s, top, last))

lemma resSame(u seq(i64), i int, n int, ids seq(u64), loc bytes, s int, top int, last bool, ids2 seq(u64), loc2 bytes)
  props C21
  requires ids == ids2 && loc == loc2
  ensures viewbytes_i64(resFile(u, i, ids, loc, s, top, last)) == viewbytes_i64(resFile(u, i, ids2, loc2, s, top, last))

lemma resFin(d bytes, od seq(i64), u seq(i64), i int, ids seq(u64), loc bytes, s int, top int, last bool, ids2 seq(u64), loc2 bytes)
  props C21
  requires i >= len(u) && ids == ids2 && loc == loc2
  requires cat(d, viewbytes_i64(od), viewbytes_i64(resFile(u, i, ids, loc, s, top, last))) == viewbytes_i64(resFile(u, 0, ids, loc, s, top, last))
  ensures cat(d, viewbytes_i64(od)) == viewbytes_i64(resFile(u, 0, ids2, loc2, s, top, last))
  ensures imp(len(od) == 0, d == viewbytes_i64(resFile(u, 0, ids2, loc2, s, top, last)))
  split len(od) == 0
  use viewEmpty(0)
  use resDone(u, i, ids, loc, s, top, last)
  use resSame(u, 0, 0, ids, loc, s, top, last, ids2, loc2)

contract cmd/relindex.rewrite(outputFile, inputFile, wi, pass, count)
  props C21
  requires outputFile != inputFile && 0 <= pass && pass < count
  requires 0 <= wi.AlignmentShift && wi.AlignmentShift <= 62 && wfWays(els(wi.Ids), els(wi.Loc), wi.AlignmentShift)
  safe false
  use passWf(els(wi.Ids), els(wi.Loc), wi.AlignmentShift, pass, count)
  havocs pos
  havocs wi.HitHint
  havocs wi.HitDefault
  havocs wi.MissDeferred
  havocs wi.MissDefault
  havocs wi.lookupTimingCount
  use viewEmpty(0)
  sets disk = sto(disk, outputFile, viewbytes_i64(resFile(view_i64(sel(disk, inputFile)), 0, passIds(els(wi.Ids), len(wi.Loc), wi.AlignmentShift, pass, count), els(wi.Loc), wi.AlignmentShift, passTop(els(wi.Ids), len(wi.Loc), wi.AlignmentShift, pass, count), pass+1 >= count)))
  loop 0
    use viewEmpty(0)
    use imp(i >= len(u), resFin(sel(disk, outputFile), els(outputData), els(u), i, els(swi.Ids), els(swi.Loc), swi.parent.AlignmentShift, swi.Top, pass+1 >= count, passIds(old(els(wi.Ids)), len(old(wi.Loc)), old(wi.AlignmentShift), pass, count), old(els(wi.Loc))))
    use imp(0 <= i && i+1 < len(u) && resEnd(els(u), i+2, u[i+1]) > i, resStep(els(outputData), els(u), i, els(swi.Ids), els(swi.Loc), swi.parent.AlignmentShift, swi.Top, pass+1 >= count))
    inv 0 <= i
    inv disk == sto(old(disk), outputFile, sel(disk, outputFile))
    inv sel(pos, outputFile) == len(sel(disk, outputFile))
    inv cat(sel(disk, outputFile), viewbytes_i64(els(outputData)), viewbytes_i64(resFile(els(u), i, els(swi.Ids), els(swi.Loc), swi.parent.AlignmentShift, swi.Top, pass+1 >= count))) == viewbytes_i64(resFile(els(u), 0, els(swi.Ids), els(swi.Loc), swi.parent.AlignmentShift, swi.Top, pass+1 >= count))
    inv !isnil(swi.parent) && swi.parent.AlignmentShift == begin(swi.parent.AlignmentShift)
  loop 1
    use rmCases(els(u), i, els(swi.Ids), els(swi.Loc), swi.parent.AlignmentShift, swi.Top, pass+1 >= count)
    inv 0 <= i && begin(i) <= i
    inv resEnd(els(u), i, wayCount-j) == resEnd(els(u), begin(i), wayCount)
    inv cat(els(outputData), resMembers(els(u), i, wayCount-j, els(swi.Ids), els(swi.Loc), swi.parent.AlignmentShift, swi.Top, pass+1 >= count)) == cat(begin(els(outputData)), resMembers(els(u), begin(i), wayCount, els(swi.Ids), els(swi.Loc), swi.parent.AlignmentShift, swi.Top, pass+1 >= count))
    inv !isnil(swi.parent) && swi.parent.AlignmentShift == begin(swi.parent.AlignmentShift)
