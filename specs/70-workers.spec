# Worker loops: what is sent is a function of what was received.

ufn inflate(z bytes, n i32) bytes
ufn inflates(z bytes, n i32) bool

fn rawOK(b t.Blob) bool decreases 0 = imp(isnil(b.Raw), !isnil(b.ZLibData) && !isnil(b.RawSize) && inflates(els(b.ZLibData), b.RawSize))
fn rawOf(b t.Blob) bytes decreases 0 = ite(!isnil(b.Raw), els(b.Raw), inflate(els(b.ZLibData), b.RawSize))

# zlib itself is outside the verified code (bounded: the harnesses of C16 and C24 run it)
contract t.Blob.decodeZLib(b)
  props C16 C24
  trusted
  safe !isnil(b.RawSize) && inflates(els(b.ZLibData), b.RawSize)
  ensures refusal: !isnil(b.RawSize) && inflates(els(b.ZLibData), b.RawSize)
  returns with(zero("pool.BorrowedBuffer"), Buffer, sl(inflate(els(b.ZLibData), b.RawSize)), isBorrowed, true)
  ensures len(result0.Buffer) == b.RawSize

contract t.Blob.GetRawData(b)
  props C16 C24
  safe rawOK(b)
  ensures refusal: rawOK(b)
  returns with(zero("pool.BorrowedBuffer"), Buffer, sl(rawOf(b)), isBorrowed, isnil(b.Raw))


fn blobOf(d bytes) t.Blob = rdB(d, 0, zero("t.Blob"))
fn dataOf(b pbf.Block) bytes = unbox("mmap.MMap", b.Data)
fn pbInit() t.PrimitiveBlock = with(zero("t.PrimitiveBlock"), Granularity, 100, DateGranularity, 1000)
fn decOK(b pbf.Block, r t.PBReader) bool decreases 0 = isa("mmap.MMap", b.Data) && okB(dataOf(b), 0) && rawOK(blobOf(dataOf(b))) && okPB(rawOf(blobOf(dataOf(b))), 0, r)
fn decBlock(b pbf.Block, r t.PBReader) t.PrimitiveBlock = rdPB(rawOf(blobOf(dataOf(b))), 0, r, pbInit())

# ---- relation records

fn countWays(ms seq(u64), i int) i64 decreases ite(i >= len(ms), 0, len(ms)-i) = ite(i >= len(ms) || i < 0, 0, i64(ite(ms[i] == 1, 1, 0) + countWays(ms, i+1)))
fn negWays(ids seq(i64), ms seq(u64), i int) seq(i64) decreases ite(i >= len(ids), 0, len(ids)-i) = ite(i >= len(ids) || i < 0, empty(seq(i64)), ite(ms[i] == 1, cons(i64(0-ids[i]), negWays(ids, ms, i+1)), negWays(ids, ms, i+1)))
fn relRec(r t.Relation) seq(i64) decreases 0 = cat(cons(i64(r.ID), cons(countWays(r.MemberType, 0), negWays(r.MemIDs, r.MemberType, 0))))
fn relRecs(rs seq(t.Relation), i int) seq(i64) decreases ite(i >= len(rs), 0, len(rs)-i) = ite(i >= len(rs) || i < 0, empty(seq(i64)), cat(relRec(rs[i]), relRecs(rs, i+1)))
fn relGroups(gs seq(t.PrimitiveGroup), i int) seq(i64) decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, empty(seq(i64)), cat(relRecs(gs[i].Relations, 0), relGroups(gs, i+1)))
fn relShape(rs seq(t.Relation), i int) bool decreases ite(i >= len(rs), 0, len(rs)-i) = ite(i >= len(rs) || i < 0, true, len(rs[i].MemIDs) <= len(rs[i].MemberType) && relShape(rs, i+1))
fn relShapes(gs seq(t.PrimitiveGroup), i int) bool decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, true, relShape(gs[i].Relations, 0) && relShapes(gs, i+1))

fn relReader() t.PBReader = with(zero("t.PBReader"), SkipDenseNodes, true, SkipWays, true)
fn relOut(b pbf.Block) pbf.Block decreases 0 = ite(b.BlobType != "OSMData", b, with(b, Data, box("[]int64", relGroups(decBlock(b, relReader()).PrimitiveGroup, 0)), BlobType, "RelationData"))
fn relIn(b pbf.Block) bool decreases 0 = b.BlobType != "OSMData" || decOK(b, relReader()) && relShapes(decBlock(b, relReader()).PrimitiveGroup, 0)
fn relOuts(bs seq(pbf.Block), i int) seq(pbf.Block) decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, empty(seq(pbf.Block)), cons(relOut(bs[i]), relOuts(bs, i+1)))
fn relIns(bs seq(pbf.Block), i int) bool decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, true, relIn(bs[i]) && relIns(bs, i+1))

# what one block gives back to the pool: its decompressed content, once, if it was compressed
fn putOf(b pbf.Block) seq(any) decreases 0 = ite(isnil(blobOf(dataOf(b)).Raw), cons(box("[]byte", sl(rawOf(blobOf(dataOf(b))))), empty(seq(any))), empty(seq(any)))
fn puts(bs seq(pbf.Block), i int) seq(any) decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, empty(seq(any)), cat(putOf(bs[i]), puts(bs, i+1)))
fn putData(bs seq(pbf.Block), i int) seq(any) decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, empty(seq(any)), cat(ite(bs[i].BlobType != "OSMData", empty(seq(any)), putOf(bs[i])), putData(bs, i+1)))

contract relindexerinit.RelIndexerInitializer.Worker$1(ctx, chIn, chOut)
  props C20 C24
  sets pooled = cat(pooled, putData(recv_chIn, 0))
  safe relIns(recv_chIn, 0)
  havocs ri
  ensures new(sent_chOut) == relOuts(recv_chIn, 0)
  loop 0
    inv cat(pooled, putData(recv_chIn, nrecv_chIn)) == cat(old(pooled), putData(recv_chIn, 0))
    inv cat(sent_chOut, relOuts(recv_chIn, nrecv_chIn)) == relOuts(recv_chIn, 0)
    inv imp(relIns(recv_chIn, 0), relIns(recv_chIn, nrecv_chIn))
  loop 1
    inv cat(outputData, relGroups(pb.PrimitiveGroup, iter)) == relGroups(pb.PrimitiveGroup, 0)
    inv imp(relIns(recv_chIn, 0), relShapes(pb.PrimitiveGroup, iter))
  loop 2
    inv cat(outputData, relRecs(pg.Relations, iter)) == cat(begin(outputData), relRecs(pg.Relations, 0))
    inv imp(relIns(recv_chIn, 0), relShape(pg.Relations, iter))
  loop 3
    inv i64(wayCount + countWays(r.MemberType, iter)) == countWays(r.MemberType, 0)
  loop 4
    inv cat(outputData, negWays(r.MemIDs, r.MemberType, iter)) == cat(begin(outputData), negWays(r.MemIDs, r.MemberType, 0))

# ---- decompress

fn be32(n u32) bytes = bytes(u8(n / 16777216), u8(n / 65536), u8(n / 256), u8(n))
fn rawBlob(x bytes) t.Blob = with(zero("t.Blob"), Raw, sl(x))
fn blobHdr(typ string, n int) t.BlobHeader = with(zero("t.BlobHeader"), Type, typ, DataSize, i32(n))
fn frame(typ string, body bytes) bytes = cat(be32(u32(len(wrBH(blobHdr(typ, len(body)))))), wrBH(blobHdr(typ, len(body))), body)
fn decompOut(b pbf.Block) pbf.Block decreases 0 = with(b, Data, box("[]byte", frame(b.BlobType, wrB(rawBlob(rawOf(blobOf(dataOf(b))))))))
fn decompIn(b pbf.Block) bool decreases 0 = isa("mmap.MMap", b.Data) && okB(dataOf(b), 0) && rawOK(blobOf(dataOf(b)))
fn decompOuts(bs seq(pbf.Block), i int) seq(pbf.Block) decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, empty(seq(pbf.Block)), cons(decompOut(bs[i]), decompOuts(bs, i+1)))
fn decompIns(bs seq(pbf.Block), i int) bool decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, true, decompIn(bs[i]) && decompIns(bs, i+1))

contract binary.bigEndian.PutUint32(e, b, v)
  trusted
  safe len(b) >= 4
  sets b = cat(be32(v), els(b)[4:])

contract decompressor.Decompressor.Worker(decomp, ctx, chIn, chOut)
  props C16 C24
  sets pooled = cat(pooled, puts(recv_chIn, 0))
  safe decompIns(recv_chIn, 0)
  havocs decomp
  ensures new(sent_chOut) == decompOuts(recv_chIn, 0)
  loop 0
    inv cat(pooled, puts(recv_chIn, nrecv_chIn)) == cat(old(pooled), puts(recv_chIn, 0))
    inv cat(sent_chOut, decompOuts(recv_chIn, nrecv_chIn)) == decompOuts(recv_chIn, 0)
    inv imp(decompIns(recv_chIn, 0), decompIns(recv_chIn, nrecv_chIn))
