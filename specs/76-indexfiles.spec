# The index files: entries after the header while blocks arrive, locations from the side file at the end.

nonil indexer.elementBatch.ranges
nonil indexer.elementBatch.locations

fn rangeLen(r indexer.indexRange) u64 = u64(u64(r.last - r.first) + 1)
fn rangesLen(rs seq(indexer.indexRange), i int, n u64) u64 decreases ite(i >= len(rs), 0, len(rs)-i) = ite(i >= len(rs) || i < 0, n, rangesLen(rs, i+1, u64(n+rangeLen(rs[i]))))
# the entries of one batch when n locations precede it
fn rangePairs(rs seq(indexer.indexRange), i int, n u64) seq(u64) decreases ite(i >= len(rs), 0, len(rs)-i) = ite(i >= len(rs) || i < 0, empty(seq(u64)), cons(rs[i].first, cons(n*16777216 + rangeLen(rs[i]), rangePairs(rs, i+1, u64(n+rangeLen(rs[i]))))))
fn batchOf(b pbf.Block) indexer.elementBatch = unbox("indexer.elementBatch", b.Data)
fn isBatch(b pbf.Block) bool = b.BlobType == "IndexData"
fn nodePairs(bs seq(pbf.Block), i int, n u64) bytes decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, empty(bytes), ite(isBatch(bs[i]), cat(viewbytes_u64(rangePairs(batchOf(bs[i]).ranges, 0, n)), nodePairs(bs, i+1, rangesLen(batchOf(bs[i]).ranges, 0, n))), nodePairs(bs, i+1, n)))
fn nodeLocs(bs seq(pbf.Block), i int) bytes decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, empty(bytes), ite(isBatch(bs[i]), cat(viewbytes_i64(batchOf(bs[i]).locations), nodeLocs(bs, i+1)), nodeLocs(bs, i+1)))
fn nodeCount(bs seq(pbf.Block), i int, k u64) u64 decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, k, ite(isBatch(bs[i]), nodeCount(bs, i+1, u64(k+len(batchOf(bs[i]).ranges))), nodeCount(bs, i+1, k)))
fn nodeFile(bs seq(pbf.Block)) bytes = cat(viewbytes_u64(cons(1, cons(nodeCount(bs, 0, 0), empty(seq(u64))))), nodePairs(bs, 0, 0), nodeLocs(bs, 0))

lemma le64Len(x u64)
  props C12 C13 C23
  ensures len(le64(x)) == 8
  unfold le64(x)

lemma leULen(xs seq(u64), i int)
  props C12 C13 C23
  requires 0 <= i && i <= len(xs)
  ensures len(leU(xs, i)) == 8*(len(xs)-i)
  decreases len(xs)-i
  split i < len(xs)
  unfold leU(xs, i)
  use imp(i < len(xs), le64Len(xs[i]))
  use imp(i < len(xs), leULen(xs, i+1))

lemma leILen(xs seq(i64), i int)
  props C12 C13 C23
  requires 0 <= i && i <= len(xs)
  ensures len(leI(xs, i)) == 8*(len(xs)-i)
  decreases len(xs)-i
  split i < len(xs)
  unfold leI(xs, i)
  use imp(i < len(xs), le64Len(u64(xs[i])))
  use imp(i < len(xs), leILen(xs, i+1))

lemma viewLenU(xs seq(u64))
  trigger viewbytes_u64(xs)
  props C12 C13 C23
  ensures len(viewbytes_u64(xs)) == 8*len(xs)
  unfold viewbytes_u64(xs)
  use leULen(xs, 0)

lemma viewLenI(xs seq(i64))
  trigger viewbytes_i64(xs)
  props C12 C13 C23
  ensures len(viewbytes_i64(xs)) == 8*len(xs)
  unfold viewbytes_i64(xs)
  use leILen(xs, 0)

lemma tmpName(fn bytes)
  props C12 C13 C23
  ensures fn != cat(fn, ".loc.tmp")

contract indexer.NodeIndexer.Output$1(ctx, chIn)
  props C12
  safe false
  havocs ni
  havocs pos
  havocs disk
  ensures imp(!cancelled(ctx), new(disk) == sto(sto(old(disk), outputFileName, nodeFile(recv_chIn)), cat(outputFileName, ".loc.tmp"), empty(bytes)))
  use tmpName(outputFileName)
  loop 0
    inv disk == sto(sto(old(disk), outputFileName, sel(disk, outputFileName)), cat(outputFileName, ".loc.tmp"), sel(disk, cat(outputFileName, ".loc.tmp")))
    inv sel(pos, outputFileName) == len(sel(disk, outputFileName))
    inv sel(pos, cat(outputFileName, ".loc.tmp")) == len(sel(disk, cat(outputFileName, ".loc.tmp")))
    inv cat(sel(disk, outputFileName), nodePairs(recv_chIn, nrecv_chIn, lastLocationIndex)) == cat(viewbytes_i64(cons(0, cons(0, empty(seq(i64))))), nodePairs(recv_chIn, 0, 0))
    inv cat(sel(disk, cat(outputFileName, ".loc.tmp")), nodeLocs(recv_chIn, nrecv_chIn)) == nodeLocs(recv_chIn, 0)
    inv nodeCount(recv_chIn, nrecv_chIn, indexElementCount) == nodeCount(recv_chIn, 0, 0)
    inv len(sel(disk, outputFileName)) >= 16
  loop 1
    inv cat(outputData, rangePairs(element.ranges, iter, lastLocationIndex)) == rangePairs(element.ranges, 0, begin(lastLocationIndex))
    inv rangesLen(element.ranges, iter, lastLocationIndex) == rangesLen(element.ranges, 0, begin(lastLocationIndex))
    inv indexElementCount == u64(begin(indexElementCount) + iter)
  loop 2
    inv disk == sto(begin(disk), outputFileName, sel(disk, outputFileName))
    inv sel(pos, outputFileName) == len(sel(disk, outputFileName))
    inv 0 <= sel(pos, cat(outputFileName, ".loc.tmp")) && sel(pos, cat(outputFileName, ".loc.tmp")) <= len(sel(disk, cat(outputFileName, ".loc.tmp")))
    inv sel(disk, cat(outputFileName, ".loc.tmp")) == nodeLocs(recv_chIn, 0)
    inv sel(disk, outputFileName) == cat(viewbytes_i64(cons(0, cons(0, empty(seq(i64))))), nodePairs(recv_chIn, 0, 0), sel(disk, cat(outputFileName, ".loc.tmp"))[:sel(pos, cat(outputFileName, ".loc.tmp"))])
    inv len(sel(disk, outputFileName)) >= 16
    inv indexElementCount == nodeCount(recv_chIn, 0, 0)

# ---- way index

fn wayPair(b u64, n i64) u64 = u64((b / 8589934592)*8589934592 + i64(b % 8589934592 + n))
fn wayPairs(bs seq(u64), i int, n i64) seq(u64) decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, empty(seq(u64)), cons(wayPair(bs[i], n), wayPairs(bs, i+1, n)))
fn wbatch(b pbf.Block) wayindexer.indexElement = unbox("wayindexer.indexElement", b.Data)
fn wayLen(b pbf.Block, n i64, sh int) i64 = i64(n + shr(len(wbatch(b).locations), sh))
fn wayIdxFile(bs seq(pbf.Block), i int, n i64, sh int) bytes decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, empty(bytes), ite(isBatch(bs[i]), cat(viewbytes_u64(wayPairs(wbatch(bs[i]).blocks, 0, n)), wayIdxFile(bs, i+1, wayLen(bs[i], n, sh), sh)), wayIdxFile(bs, i+1, n, sh)))
fn wayLocFile(bs seq(pbf.Block), i int) bytes decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, empty(bytes), ite(isBatch(bs[i]), cat(wbatch(bs[i]).locations, wayLocFile(bs, i+1)), wayLocFile(bs, i+1)))
fn wayCount(bs seq(pbf.Block), i int, k i64) i64 decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, k, ite(isBatch(bs[i]), wayCount(bs, i+1, i64(k+len(wbatch(bs[i]).blocks))), wayCount(bs, i+1, k)))
fn wayFile(bs seq(pbf.Block), sh int) bytes = cat(viewbytes_i64(cons(wayCount(bs, 0, 0), cons(i64(sh), empty(seq(i64))))), wayIdxFile(bs, 0, 0, sh), wayLocFile(bs, 0))

contract wayindexer.WayIndexer.Output$1(ctx, chIn)
  props C13
  requires 0 <= alignmentShift && alignmentShift <= 62
  safe false
  havocs ni
  havocs pos
  havocs disk
  ensures imp(!cancelled(ctx), new(disk) == sto(sto(old(disk), outputFileName, wayFile(recv_chIn, alignmentShift)), cat(outputFileName, ".loc.tmp"), empty(bytes)))
  use tmpName(outputFileName)
  loop 0
    inv disk == sto(sto(old(disk), outputFileName, sel(disk, outputFileName)), cat(outputFileName, ".loc.tmp"), sel(disk, cat(outputFileName, ".loc.tmp")))
    inv sel(pos, outputFileName) == len(sel(disk, outputFileName))
    inv sel(pos, cat(outputFileName, ".loc.tmp")) == len(sel(disk, cat(outputFileName, ".loc.tmp")))
    inv cat(sel(disk, outputFileName), wayIdxFile(recv_chIn, nrecv_chIn, locationLength, alignmentShift)) == cat(viewbytes_i64(cons(0, cons(0, empty(seq(i64))))), wayIdxFile(recv_chIn, 0, 0, alignmentShift))
    inv cat(sel(disk, cat(outputFileName, ".loc.tmp")), wayLocFile(recv_chIn, nrecv_chIn)) == wayLocFile(recv_chIn, 0)
    inv wayCount(recv_chIn, nrecv_chIn, indexBlockCount) == wayCount(recv_chIn, 0, 0)
    inv len(sel(disk, outputFileName)) >= 16
  loop 1
    inv cat(outputData, wayPairs(element.blocks, iter, locationLength)) == wayPairs(element.blocks, 0, locationLength)
  loop 2
    inv disk == sto(begin(disk), outputFileName, sel(disk, outputFileName))
    inv sel(pos, outputFileName) == len(sel(disk, outputFileName))
    inv 0 <= sel(pos, cat(outputFileName, ".loc.tmp")) && sel(pos, cat(outputFileName, ".loc.tmp")) <= len(sel(disk, cat(outputFileName, ".loc.tmp")))
    inv sel(disk, cat(outputFileName, ".loc.tmp")) == wayLocFile(recv_chIn, 0)
    inv sel(disk, outputFileName) == cat(viewbytes_i64(cons(0, cons(0, empty(seq(i64))))), wayIdxFile(recv_chIn, 0, 0, alignmentShift), sel(disk, cat(outputFileName, ".loc.tmp"))[:sel(pos, cat(outputFileName, ".loc.tmp"))])
    inv len(sel(disk, outputFileName)) >= 16
    inv indexBlockCount == wayCount(recv_chIn, 0, 0)
