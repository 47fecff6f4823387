# Building a node index: ranges and location codes of one block.

# a coordinate in units of 100 nanodegrees, rounded towards zero
fn hundredth(x i64) i64 = ite(x >= 0, x/100, 0-((0-x)/100))
fn coord(o i64, g i32, v i64) i32 = i32(hundredth(i64(o + i64(g*v))))
# a latitude marked as one of a stored location
fn marked(x i32) i32 = ite(x >= 0, x-2147483648, x)
fn nodeCode(p t.PrimitiveBlock, d t.DenseNodes, k int) i64 decreases 0 = i64(mortE(coord(p.LonOffset, p.Granularity, d.Lon[k]), marked(coord(p.LatOffset, p.Granularity, d.Lat[k]))))

# open: a range from f to l is being extended
const noRange = 18446744073709551615
fn extends(id u64, f u64, l u64) bool = f != noRange && (id == u64(l+1) || id == u64(l+2))
fn gapAt(id u64, f u64, l u64) bool = f != noRange && id != u64(l+1) && id == u64(l+2)
fn openF(ids seq(i64), i int, f u64, l u64) u64 decreases ite(i >= len(ids), 0, len(ids)-i) = ite(i >= len(ids) || i < 0, f, openF(ids, i+1, ite(extends(u64(ids[i]), f, l), f, u64(ids[i])), u64(ids[i])))
fn openL(ids seq(i64), i int, l u64) u64 decreases ite(i >= len(ids), 0, len(ids)-i) = ite(i >= len(ids) || i < 0, l, openL(ids, i+1, u64(ids[i])))
fn span(f u64, l u64) indexer.indexRange = mk("indexer.indexRange", f, l)
fn spans(ids seq(i64), i int, f u64, l u64) seq(indexer.indexRange) decreases ite(i >= len(ids), 0, len(ids)-i) = ite(i >= len(ids) || i < 0, empty(seq(indexer.indexRange)), ite(extends(u64(ids[i]), f, l), spans(ids, i+1, f, u64(ids[i])), cat(ite(f != noRange, cons(span(f, l), empty(seq(indexer.indexRange))), empty(seq(indexer.indexRange))), spans(ids, i+1, u64(ids[i]), u64(ids[i])))))
fn codes(p t.PrimitiveBlock, d t.DenseNodes, i int, f u64, l u64) seq(i64) decreases ite(i >= len(d.Id), 0, len(d.Id)-i) = ite(i >= len(d.Id) || i < 0, empty(seq(i64)), cat(ite(gapAt(u64(d.Id[i]), f, l), cons(0, empty(seq(i64))), empty(seq(i64))), cons(nodeCode(p, d, i), codes(p, d, i+1, ite(extends(u64(d.Id[i]), f, l), f, u64(d.Id[i])), u64(d.Id[i])))))

fn oF(d t.DenseNodes, f u64, l u64) u64 decreases 0 = openF(d.Id, 0, f, l)
fn oL(d t.DenseNodes, l u64) u64 decreases 0 = openL(d.Id, 0, l)
fn oSp(d t.DenseNodes, f u64, l u64) seq(indexer.indexRange) decreases 0 = spans(d.Id, 0, f, l)
fn oCo(p t.PrimitiveBlock, d t.DenseNodes, f u64, l u64) seq(i64) decreases 0 = codes(p, d, 0, f, l)
opaque oF
opaque oL
opaque oSp
opaque oCo
lemma oDef(p t.PrimitiveBlock, d t.DenseNodes, f u64, l u64)
  props C12
  ensures oF(d, f, l) == openF(d.Id, 0, f, l)
  ensures oL(d, l) == openL(d.Id, 0, l)
  ensures oSp(d, f, l) == spans(d.Id, 0, f, l)
  ensures oCo(p, d, f, l) == codes(p, d, 0, f, l)
  unfold oF(d, f, l)
  unfold oL(d, l)
  unfold oSp(d, f, l)
  unfold oCo(p, d, f, l)

fn gF(gs seq(t.PrimitiveGroup), i int, f u64, l u64) u64 decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, f, ite(isnil(gs[i].Dense), gF(gs, i+1, f, l), gF(gs, i+1, oF(gs[i].Dense, f, l), oL(gs[i].Dense, l))))
fn gL(gs seq(t.PrimitiveGroup), i int, l u64) u64 decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, l, ite(isnil(gs[i].Dense), gL(gs, i+1, l), gL(gs, i+1, oL(gs[i].Dense, l))))
fn gSpans(gs seq(t.PrimitiveGroup), i int, f u64, l u64) seq(indexer.indexRange) decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, empty(seq(indexer.indexRange)), ite(isnil(gs[i].Dense), gSpans(gs, i+1, f, l), cat(oSp(gs[i].Dense, f, l), gSpans(gs, i+1, oF(gs[i].Dense, f, l), oL(gs[i].Dense, l)))))
fn gCodes(p t.PrimitiveBlock, gs seq(t.PrimitiveGroup), i int, f u64, l u64) seq(i64) decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, empty(seq(i64)), ite(isnil(gs[i].Dense), gCodes(p, gs, i+1, f, l), cat(oCo(p, gs[i].Dense, f, l), gCodes(p, gs, i+1, oF(gs[i].Dense, f, l), oL(gs[i].Dense, l)))))
fn gOK(gs seq(t.PrimitiveGroup), i int) bool decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, true, (isnil(gs[i].Dense) || len(gs[i].Dense.Id) <= len(gs[i].Dense.Lat) && len(gs[i].Dense.Id) <= len(gs[i].Dense.Lon)) && gOK(gs, i+1))
fn lastSpan(f u64, l u64) seq(indexer.indexRange) = ite(f != noRange, cons(span(f, l), empty(seq(indexer.indexRange))), empty(seq(indexer.indexRange)))
fn blkSpans(p t.PrimitiveBlock) seq(indexer.indexRange) decreases 0 = cat(gSpans(p.PrimitiveGroup, 0, noRange, noRange), lastSpan(gF(p.PrimitiveGroup, 0, noRange, noRange), gL(p.PrimitiveGroup, 0, noRange)))
fn blkCodes(p t.PrimitiveBlock) seq(i64) decreases 0 = gCodes(p, p.PrimitiveGroup, 0, noRange, noRange)

fn nodeReader() t.PBReader = with(zero("t.PBReader"), SkipStringTable, true, SkipWays, true, SkipRelations, true)
fn nodeBatch(p t.PrimitiveBlock) indexer.elementBatch = with(zero("indexer.elementBatch"), ranges, blkSpans(p), locations, blkCodes(p))
fn nodeOut(b pbf.Block) pbf.Block decreases 0 = ite(b.BlobType != "OSMData", b, with(b, Data, box("indexer.elementBatch", nodeBatch(decBlock(b, nodeReader()))), BlobType, ite(len(blkSpans(decBlock(b, nodeReader()))) == 0, "Filler", "IndexData")))
fn nodeIn(b pbf.Block) bool decreases 0 = b.BlobType != "OSMData" || decOK(b, nodeReader()) && gOK(decBlock(b, nodeReader()).PrimitiveGroup, 0)
fn nodeOuts(bs seq(pbf.Block), i int) seq(pbf.Block) decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, empty(seq(pbf.Block)), cons(nodeOut(bs[i]), nodeOuts(bs, i+1)))
fn nodeIns(bs seq(pbf.Block), i int) bool decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, true, nodeIn(bs[i]) && nodeIns(bs, i+1))

contract indexer.NodeIndexer.Worker(ni, ctx, chIn, chOut)
  props C12
  havocs pooled
  safe nodeIns(recv_chIn, 0)
  havocs ni
  ensures new(sent_chOut) == nodeOuts(recv_chIn, 0)
  loop 0
    inv cat(sent_chOut, nodeOuts(recv_chIn, nrecv_chIn)) == nodeOuts(recv_chIn, 0)
    inv imp(nodeIns(recv_chIn, 0), nodeIns(recv_chIn, nrecv_chIn))
  loop 1
    inv cat(indexBlocks, gSpans(pb.PrimitiveGroup, iter, firstId, lastId)) == gSpans(pb.PrimitiveGroup, 0, noRange, noRange)
    inv cat(outputLoc, gCodes(pb, pb.PrimitiveGroup, iter, firstId, lastId)) == gCodes(pb, pb.PrimitiveGroup, 0, noRange, noRange)
    inv gF(pb.PrimitiveGroup, iter, firstId, lastId) == gF(pb.PrimitiveGroup, 0, noRange, noRange)
    inv gL(pb.PrimitiveGroup, iter, lastId) == gL(pb.PrimitiveGroup, 0, noRange)
    inv imp(nodeIns(recv_chIn, 0), gOK(pb.PrimitiveGroup, iter))
    use imp(!isnil(pb.PrimitiveGroup[iter].Dense), oDef(pb, pb.PrimitiveGroup[iter].Dense, firstId, lastId))
  loop 2
    inv cat(indexBlocks, spans(pg.Dense.Id, iter, firstId, lastId)) == cat(begin(indexBlocks), oSp(pg.Dense, begin(firstId), begin(lastId)))
    inv cat(outputLoc, codes(pb, pg.Dense, iter, firstId, lastId)) == cat(begin(outputLoc), oCo(pb, pg.Dense, begin(firstId), begin(lastId)))
    inv openF(pg.Dense.Id, iter, firstId, lastId) == oF(pg.Dense, begin(firstId), begin(lastId))
    inv openL(pg.Dense.Id, iter, lastId) == oL(pg.Dense, begin(lastId))
