# What the find tool prints.

ghost printed seq(any)
contract fmt.Printf(format, a)
  trusted
  sets printed = cat(printed, els(a))

fn inIds(ids seq(u64), id u64, i int) bool decreases ite(i >= len(ids), 0, len(ids)-i) = ite(i >= len(ids) || i < 0, false, ids[i] == id || inIds(ids, id, i+1))
contract cmd/entityfind.isIn(ids, id)
  props C28
  returns inIds(ids, id, 0)
  loop 0
    inv inIds(ids, id, iter) == inIds(ids, id, 0)

fn findN(ids seq(u64), ns seq(t.HLNode), i int) seq(any) decreases ite(i >= len(ns), 0, len(ns)-i) = ite(i >= len(ns) || i < 0, empty(seq(any)), cat(ite(inIds(ids, ns[i].Id, 0), cons(box("*t.HLNode", some(ns[i])), empty(seq(any))), empty(seq(any))), findN(ids, ns, i+1)))
fn findW(ids seq(u64), ws seq(t.HLWay), i int) seq(any) decreases ite(i >= len(ws), 0, len(ws)-i) = ite(i >= len(ws) || i < 0, empty(seq(any)), cat(ite(inIds(ids, u64(ws[i].Id), 0), cons(box("*t.HLWay", some(ws[i])), empty(seq(any))), empty(seq(any))), findW(ids, ws, i+1)))
fn findR(ids seq(u64), rs seq(t.HLRelation), i int) seq(any) decreases ite(i >= len(rs), 0, len(rs)-i) = ite(i >= len(rs) || i < 0, empty(seq(any)), cat(ite(inIds(ids, u64(rs[i].Id), 0), cons(box("*t.HLRelation", some(rs[i])), empty(seq(any))), empty(seq(any))), findR(ids, rs, i+1)))

fn allReader() t.PBReader = zero("t.PBReader")
fn nodesIn(pb t.PrimitiveBlock) seq(t.HLNode) = grpNodes(strs(pb), pb.Granularity, pb.LatOffset, pb.LonOffset, pb.PrimitiveGroup, 0)
fn findPB(ids seq(u64), pb t.PrimitiveBlock) seq(any) decreases 0 = cat(findN(ids, nodesIn(pb), 0), findW(ids, grpHlWays(strs(pb), pb.PrimitiveGroup, 0), 0), findR(ids, grpRels(strs(pb), pb.PrimitiveGroup, 0), 0))
fn entsOK(pb t.PrimitiveBlock) bool decreases 0 = !isnil(pb.StringTable) && grpNodesOK(len(strs(pb)), pb.PrimitiveGroup, 0) && grpWaysOK(len(strs(pb)), pb.PrimitiveGroup, 0) && grpRelsOK(len(strs(pb)), pb.PrimitiveGroup, 0)
fn findIn(b pbf.Block) bool decreases 0 = b.BlobType != "OSMData" || decOK(b, allReader()) && entsOK(decBlock(b, allReader()))
fn findIns(bs seq(pbf.Block), i int) bool decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, true, findIn(bs[i]) && findIns(bs, i+1))
fn findAll(ids seq(u64), bs seq(pbf.Block), i int) seq(any) decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, empty(seq(any)), cat(ite(bs[i].BlobType != "OSMData", empty(seq(any)), findPB(ids, decBlock(bs[i], allReader()))), findAll(ids, bs, i+1)))

# every decoded dense section starts without remembered tags
lemma freshD(b bytes, i int, h t.DenseNodes)
  props C26 C28
  requires 0 <= i && i <= len(b) && okD(b, i) && len(h.cacheKeys) == 0 && len(h.cacheVals) == 0
  ensures len(rdD(b, i, h).cacheKeys) == 0 && len(rdD(b, i, h).cacheVals) == 0
  use imp(i < len(b) && vval(b, i) == 10, freshD(b, lend(b, vend(b, i)), with(h, Id, decS64Delta(lfield(b, vend(b, i)), 0, 0))))
  use imp(i < len(b) && vval(b, i) == 66, freshD(b, lend(b, vend(b, i)), with(h, Lat, decS64Delta(lfield(b, vend(b, i)), 0, 0))))
  use imp(i < len(b) && vval(b, i) == 74, freshD(b, lend(b, vend(b, i)), with(h, Lon, decS64Delta(lfield(b, vend(b, i)), 0, 0))))
  use imp(i < len(b) && vval(b, i) == 82, freshD(b, lend(b, vend(b, i)), with(h, KeyVals, decI32(lfield(b, vend(b, i)), 0))))
  use imp(i < len(b) && vval(b, i) == 42, freshD(b, lend(b, vend(b, i)), h))
  decreases len(b) - i
fn dFresh(g t.PrimitiveGroup) bool = isnil(g.Dense) || len(g.Dense.cacheKeys) == 0 && len(g.Dense.cacheVals) == 0
lemma freshPG(b bytes, i int, p t.PBReader, h t.PrimitiveGroup)
  props C26 C28
  requires 0 <= i && i <= len(b) && okPG(b, i, p) && dFresh(h)
  ensures dFresh(rdPG(b, i, p, h))
  use imp(i < len(b) && vval(b, i) == 18 && !p.SkipDenseNodes, freshD(lfield(b, vend(b, i)), 0, zero("t.DenseNodes")))
  use imp(i < len(b) && vval(b, i) == 18 && p.SkipDenseNodes, freshPG(b, lend(b, vend(b, i)), p, with(h, RawDense, sl(lfield(b, vend(b, i))))))
  use imp(i < len(b) && vval(b, i) == 18 && !p.SkipDenseNodes, freshPG(b, lend(b, vend(b, i)), p, with(h, Dense, some(rdD(lfield(b, vend(b, i)), 0, zero("t.DenseNodes"))))))
  use imp(i < len(b) && vval(b, i) == 26, freshPG(b, lend(b, vend(b, i)), p, ite(p.SkipWays, with(h, RawWays, push(h.RawWays, lfield(b, vend(b, i)))), with(h, Ways, sl(push(h.Ways, rdW(lfield(b, vend(b, i)), 0, zero("t.Way"))))))))
  use imp(i < len(b) && vval(b, i) == 34, freshPG(b, lend(b, vend(b, i)), p, ite(p.SkipRelations, with(h, RawRelations, push(h.RawRelations, lfield(b, vend(b, i)))), with(h, Relations, sl(push(h.Relations, rdR(lfield(b, vend(b, i)), 0, zero("t.Relation"))))))))
  use imp(i < len(b) && vval(b, i) == 42, freshPG(b, lend(b, vend(b, i)), p, h))
  decreases len(b) - i
fn freshGs(gs seq(t.PrimitiveGroup), i int) bool decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, true, dFresh(gs[i]) && freshGs(gs, i+1))
lemma freshPush(gs seq(t.PrimitiveGroup), g t.PrimitiveGroup, i int)
  props C26 C28
  requires 0 <= i && i <= len(gs) && freshGs(gs, i) && dFresh(g)
  ensures freshGs(push(gs, g), i)
  split i < len(gs)
  unfold freshGs(push(gs, g), i)
  unfold freshGs(push(gs, g), i+1)
  use imp(i < len(gs), freshPush(gs, g, i+1))
  decreases len(gs) - i
lemma freshCaches(gs seq(t.PrimitiveGroup), i int)
  props C26 C28
  requires 0 <= i && i <= len(gs) && freshGs(gs, i)
  ensures cachesOK(gs, i)
  use imp(i < len(gs) && !isnil(gs[i].Dense), cacheDef(gs[i].Dense.KeyVals, gs[i].Dense.cacheKeys, gs[i].Dense.cacheVals))
  use imp(i < len(gs), freshCaches(gs, i+1))
  decreases len(gs) - i
lemma freshPB(b bytes, i int, p t.PBReader, h t.PrimitiveBlock)
  props C26 C28
  requires 0 <= i && i <= len(b) && okPB(b, i, p) && freshGs(h.PrimitiveGroup, 0)
  ensures freshGs(rdPB(b, i, p, h).PrimitiveGroup, 0)
  use imp(i < len(b) && vval(b, i) == 10 && p.SkipStringTable, freshPB(b, lend(b, vend(b, i)), p, with(h, StringTableRaw, sl(lfield(b, vend(b, i))))))
  use imp(i < len(b) && vval(b, i) == 10 && !p.SkipStringTable, freshPB(b, lend(b, vend(b, i)), p, with(h, StringTable, some(mk("t.StringTable", rdST(lfield(b, vend(b, i)), 0))))))
  use imp(i < len(b) && vval(b, i) == 18, freshPG(lfield(b, vend(b, i)), 0, p, zero("t.PrimitiveGroup")))
  use imp(i < len(b) && vval(b, i) == 18, freshPush(h.PrimitiveGroup, rdPG(lfield(b, vend(b, i)), 0, p, zero("t.PrimitiveGroup")), 0))
  use imp(i < len(b) && vval(b, i) == 18, freshPB(b, lend(b, vend(b, i)), p, with(h, PrimitiveGroup, push(h.PrimitiveGroup, rdPG(lfield(b, vend(b, i)), 0, p, zero("t.PrimitiveGroup"))))))
  use imp(i < len(b) && vval(b, i) == 136, freshPB(b, vend(b, vend(b, i)), p, with(h, Granularity, i32(vval(b, vend(b, i))))))
  use imp(i < len(b) && vval(b, i) == 144, freshPB(b, vend(b, vend(b, i)), p, with(h, DateGranularity, i32(vval(b, vend(b, i))))))
  use imp(i < len(b) && vval(b, i) == 152, freshPB(b, vend(b, vend(b, i)), p, with(h, LatOffset, i64(vval(b, vend(b, i))))))
  use imp(i < len(b) && vval(b, i) == 160, freshPB(b, vend(b, vend(b, i)), p, with(h, LonOffset, i64(vval(b, vend(b, i))))))
  decreases len(b) - i
lemma decFresh(b bytes, p t.PBReader)
  props C26 C28
  requires okPB(b, 0, p)
  ensures cachesOK(rdPB(b, 0, p, pbInit()).PrimitiveGroup, 0)
  use freshPB(b, 0, p, pbInit())
  use freshCaches(rdPB(b, 0, p, pbInit()).PrimitiveGroup, 0)

contract cmd/entityfind.findEntity$1(ctx, chIn, chOut)
  props C28 C24
  sets pooled = cat(pooled, putData(recv_chIn, 0))
  safe findIns(recv_chIn, 0)
  sets printed = cat(printed, findAll(els(ids), recv_chIn, 0))
  loop 0
    inv cat(pooled, putData(recv_chIn, nrecv_chIn)) == cat(old(pooled), putData(recv_chIn, 0))
    inv cat(printed, findAll(els(ids), recv_chIn, nrecv_chIn)) == cat(old(printed), findAll(els(ids), recv_chIn, 0))
    inv imp(findIns(recv_chIn, 0), findIns(recv_chIn, nrecv_chIn))
    use imp(nrecv_chIn < len(recv_chIn) && okPB(rawOf(blobOf(dataOf(recv_chIn[nrecv_chIn]))), 0, allReader()), decFresh(rawOf(blobOf(dataOf(recv_chIn[nrecv_chIn]))), allReader()))
  loop 1
    inv cat(printed, findN(els(ids), els(ns), iter)) == cat(begin(printed), findN(els(ids), els(ns), 0))
  loop 2
    inv cat(printed, findW(els(ids), els(ws), iter)) == cat(begin(printed), findW(els(ids), els(ws), 0))
  loop 3
    inv cat(printed, findR(els(ids), els(rs), iter)) == cat(begin(printed), findR(els(ids), els(rs), 0))
