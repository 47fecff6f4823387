# Building a way index.

nonil wayindexer.indexElement.blocks
nonil wayindexer.indexElement.locations

# x >> s for a 64-bit x
fn shr(x int, s int) i64 decreases 0 = i64(x / pow2(s))
opaque shr

fn padLen(n int, al int) int decreases 0 = al - n % al
opaque padLen
lemma padDef(n int, al int)
  props C13
  requires al > 0 && n >= 0
  ensures padLen(n, al) == al - n % al
  ensures padLen(n, al) >= 1 && padLen(n, al) <= al
  unfold padLen(n, al)

contract wayindexer.padToAlignment(b, amt)
  props C13
  requires amt > 0
  appends b = rep(u8(0), padLen(len(b), amt))
  ensures padLen(len(b), amt) >= 1 && padLen(len(b), amt) <= amt
  use padDef(len(b), amt)

contract bytes.Repeat(b, count)
  trusted
  requires len(b) == 1 && count >= 0
  returns rep(els(b)[0], count)

fn dedup(xs seq(i64), i int, last i64) seq(i64) decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, empty(seq(i64)), ite(xs[i] != last, cons(xs[i], dedup(xs, i+1, xs[i])), dedup(xs, i+1, last)))
fn wayEnc(w t.Way) bytes = cat(encS64Delta(dedup(w.Refs, 0, 0), 0, 0), bytes(0))
# the bytes of one way when L bytes precede it
fn wayChunk(w t.Way, L int, al int) bytes = cat(wayEnc(w), rep(u8(0), padLen(L+len(wayEnc(w)), al)))
fn wayLocs(ws seq(t.Way), i int, L int, al int) bytes decreases ite(i >= len(ws), 0, len(ws)-i) = ite(i >= len(ws) || i < 0, empty(bytes), cat(wayChunk(ws[i], L, al), wayLocs(ws, i+1, L+len(wayChunk(ws[i], L, al)), al)))
fn wayEntry(w t.Way, L int, sh int) u64 = i64(w.ID)*8589934592 + shr(L, sh)
fn wayIdx(ws seq(t.Way), i int, L int, al int, sh int) seq(u64) decreases ite(i >= len(ws), 0, len(ws)-i) = ite(i >= len(ws) || i < 0, empty(seq(u64)), cons(wayEntry(ws[i], L, sh), wayIdx(ws, i+1, L+len(wayChunk(ws[i], L, al)), al, sh)))
fn waysOK(ws seq(t.Way), i int, L int, al int, sh int) bool decreases ite(i >= len(ws), 0, len(ws)-i) = ite(i >= len(ws) || i < 0, true, 0 <= ws[i].ID && ws[i].ID < 2147483648 && 0 <= shr(L, sh) && shr(L, sh) < 8589934592 && waysOK(ws, i+1, L+len(wayChunk(ws[i], L, al)), al, sh))
fn grpLocs(gs seq(t.PrimitiveGroup), i int, L int, al int) bytes decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, empty(bytes), cat(wayLocs(gs[i].Ways, 0, L, al), grpLocs(gs, i+1, L+len(wayLocs(gs[i].Ways, 0, L, al)), al)))
fn grpIdx(gs seq(t.PrimitiveGroup), i int, L int, al int, sh int) seq(u64) decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, empty(seq(u64)), cat(wayIdx(gs[i].Ways, 0, L, al, sh), grpIdx(gs, i+1, L+len(wayLocs(gs[i].Ways, 0, L, al)), al, sh)))
fn grpsOK(gs seq(t.PrimitiveGroup), i int, L int, al int, sh int) bool decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, true, waysOK(gs[i].Ways, 0, L, al, sh) && grpsOK(gs, i+1, L+len(wayLocs(gs[i].Ways, 0, L, al)), al, sh))

fn wayReader() t.PBReader = with(zero("t.PBReader"), SkipStringTable, true, SkipDenseNodes, true, SkipRelations, true)
fn wayGroups(b pbf.Block) seq(t.PrimitiveGroup) = decBlock(b, wayReader()).PrimitiveGroup
fn wayOut(b pbf.Block, sh int) pbf.Block decreases 0 = ite(b.BlobType != "OSMData", b, with(b, Data, box("wayindexer.indexElement", with(zero("wayindexer.indexElement"), blocks, grpIdx(wayGroups(b), 0, 0, shl(1, sh), sh), locations, grpLocs(wayGroups(b), 0, 0, shl(1, sh)))), BlobType, ite(len(grpIdx(wayGroups(b), 0, 0, shl(1, sh), sh)) == 0, "Filler", "IndexData")))
fn wayIn(b pbf.Block, sh int) bool decreases 0 = b.BlobType != "OSMData" || decOK(b, wayReader()) && grpsOK(wayGroups(b), 0, 0, shl(1, sh), sh)
fn wayOuts(bs seq(pbf.Block), i int, sh int) seq(pbf.Block) decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, empty(seq(pbf.Block)), cons(wayOut(bs[i], sh), wayOuts(bs, i+1, sh)))
fn wayIns(bs seq(pbf.Block), i int, sh int) bool decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, true, wayIn(bs[i], sh) && wayIns(bs, i+1, sh))

lemma shl1(s int)
  props C13
  requires 0 <= s && s <= 62
  ensures shl(1, s) == pow2(s) && shl(1, s) >= 1
  unfold shl(1, s)

contract wayindexer.WayIndexer.Worker$1(ctx, chIn, chOut)
  props C13 C24
  sets pooled = cat(pooled, putData(recv_chIn, 0))
  requires 0 <= alignmentShift && alignmentShift <= 62
  safe wayIns(recv_chIn, 0, alignmentShift)
  havocs ni
  ensures new(sent_chOut) == wayOuts(recv_chIn, 0, alignmentShift)
  use shl1(alignmentShift)
  loop 0
    inv cat(sent_chOut, wayOuts(recv_chIn, nrecv_chIn, alignmentShift)) == wayOuts(recv_chIn, 0, alignmentShift)
    inv imp(wayIns(recv_chIn, 0, alignmentShift), wayIns(recv_chIn, nrecv_chIn, alignmentShift))
    inv cat(pooled, putData(recv_chIn, nrecv_chIn)) == cat(old(pooled), putData(recv_chIn, 0))
  loop 1
    inv cat(outputLocBytes, grpLocs(pblk.PrimitiveGroup, iter, len(outputLocBytes), locationAlignment)) == grpLocs(pblk.PrimitiveGroup, 0, 0, locationAlignment)
    inv cat(ixData, grpIdx(pblk.PrimitiveGroup, iter, len(outputLocBytes), locationAlignment, alignmentShift)) == grpIdx(pblk.PrimitiveGroup, 0, 0, locationAlignment, alignmentShift)
    inv imp(wayIns(recv_chIn, 0, alignmentShift), grpsOK(pblk.PrimitiveGroup, iter, len(outputLocBytes), locationAlignment, alignmentShift))
  loop 2
    inv cat(outputLocBytes, wayLocs(pg.Ways, iter, len(outputLocBytes), locationAlignment)) == cat(begin(outputLocBytes), wayLocs(pg.Ways, 0, len(begin(outputLocBytes)), locationAlignment))
    inv cat(ixData, wayIdx(pg.Ways, iter, len(outputLocBytes), locationAlignment, alignmentShift)) == cat(begin(ixData), wayIdx(pg.Ways, 0, len(begin(outputLocBytes)), locationAlignment, alignmentShift))
    inv imp(wayIns(recv_chIn, 0, alignmentShift), waysOK(pg.Ways, iter, len(outputLocBytes), locationAlignment, alignmentShift))
  loop 3
    inv 0 <= idx && idx <= iter && len(outputLocations) == len(w.Refs)
    inv cat(outputLocations[:idx], dedup(w.Refs, iter, last)) == dedup(w.Refs, 0, 0)
