# Counting and finding: the totals over the blocks received.

contract cmd/entitycount.atomicSetMaximum(v, p)
  props C22
  shared p rely prev <= next guarantee next == v && next > prev
  havocs added_p
  ensures new(p) >= v && new(p) >= p
  loop 0
    inv p >= old(p) && old <= p

contract cmd/blockcount.countBlocks$1(ctx, chIn, chOut)
  props C28
  shared blockCount rely true guarantee true
  sets added_blockCount = u64(len(recv_chIn))
  loop 0
    inv localBlockCount == u64(nrecv_chIn)

fn entReader() t.PBReader = with(zero("t.PBReader"), SkipStringTable, true)
fn entGroups(b pbf.Block) seq(t.PrimitiveGroup) = decBlock(b, entReader()).PrimitiveGroup
fn entIn(b pbf.Block) bool decreases 0 = b.BlobType != "OSMData" || decOK(b, entReader())
fn entIns(bs seq(pbf.Block), i int) bool decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, true, entIn(bs[i]) && entIns(bs, i+1))

fn denseIds(g t.PrimitiveGroup) seq(i64) = ite(isnil(g.Dense), empty(seq(i64)), g.Dense.Id)
fn maxId(ids seq(i64), i int) u64 decreases ite(i >= len(ids), 0, len(ids)-i) = ite(i >= len(ids) || i < 0, 0, max(u64(ids[i]), maxId(ids, i+1)))
fn maxWay(ws seq(t.Way), i int) u64 decreases ite(i >= len(ws), 0, len(ws)-i) = ite(i >= len(ws) || i < 0, 0, max(u64(ws[i].ID), maxWay(ws, i+1)))
fn maxRefs(ws seq(t.Way), i int) u64 decreases ite(i >= len(ws), 0, len(ws)-i) = ite(i >= len(ws) || i < 0, 0, max(u64(len(ws[i].Refs)), maxRefs(ws, i+1)))
fn sumRefs(ws seq(t.Way), i int) u64 decreases ite(i >= len(ws), 0, len(ws)-i) = ite(i >= len(ws) || i < 0, 0, u64(len(ws[i].Refs) + sumRefs(ws, i+1)))
fn maxRel(rs seq(t.Relation), i int) u64 decreases ite(i >= len(rs), 0, len(rs)-i) = ite(i >= len(rs) || i < 0, 0, max(u64(rs[i].ID), maxRel(rs, i+1)))

fn gNodes(gs seq(t.PrimitiveGroup), i int) u64 decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, 0, u64(len(denseIds(gs[i])) + gNodes(gs, i+1)))
fn gWays(gs seq(t.PrimitiveGroup), i int) u64 decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, 0, u64(len(gs[i].Ways) + gWays(gs, i+1)))
fn gRels(gs seq(t.PrimitiveGroup), i int) u64 decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, 0, u64(len(gs[i].Relations) + gRels(gs, i+1)))
fn gRefs(gs seq(t.PrimitiveGroup), i int) u64 decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, 0, u64(sumRefs(gs[i].Ways, 0) + gRefs(gs, i+1)))
fn gMaxNode(gs seq(t.PrimitiveGroup), i int) u64 decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, 0, max(maxId(denseIds(gs[i]), 0), gMaxNode(gs, i+1)))
fn gMaxWay(gs seq(t.PrimitiveGroup), i int) u64 decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, 0, max(maxWay(gs[i].Ways, 0), gMaxWay(gs, i+1)))
fn gMaxRefs(gs seq(t.PrimitiveGroup), i int) u64 decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, 0, max(maxRefs(gs[i].Ways, 0), gMaxRefs(gs, i+1)))
fn gMaxRel(gs seq(t.PrimitiveGroup), i int) u64 decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, 0, max(maxRel(gs[i].Relations, 0), gMaxRel(gs, i+1)))

fn bNodes(bs seq(pbf.Block), i int) u64 decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, 0, u64(ite(bs[i].BlobType != "OSMData", 0, gNodes(entGroups(bs[i]), 0)) + bNodes(bs, i+1)))
fn bWays(bs seq(pbf.Block), i int) u64 decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, 0, u64(ite(bs[i].BlobType != "OSMData", 0, gWays(entGroups(bs[i]), 0)) + bWays(bs, i+1)))
fn bRels(bs seq(pbf.Block), i int) u64 decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, 0, u64(ite(bs[i].BlobType != "OSMData", 0, gRels(entGroups(bs[i]), 0)) + bRels(bs, i+1)))
fn bRefs(bs seq(pbf.Block), i int) u64 decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, 0, u64(ite(bs[i].BlobType != "OSMData", 0, gRefs(entGroups(bs[i]), 0)) + bRefs(bs, i+1)))
fn bMaxNode(bs seq(pbf.Block), i int) u64 decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, 0, max(ite(bs[i].BlobType != "OSMData", 0, gMaxNode(entGroups(bs[i]), 0)), bMaxNode(bs, i+1)))
fn bMaxWay(bs seq(pbf.Block), i int) u64 decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, 0, max(ite(bs[i].BlobType != "OSMData", 0, gMaxWay(entGroups(bs[i]), 0)), bMaxWay(bs, i+1)))
fn bMaxRefs(bs seq(pbf.Block), i int) u64 decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, 0, max(ite(bs[i].BlobType != "OSMData", 0, gMaxRefs(entGroups(bs[i]), 0)), bMaxRefs(bs, i+1)))
fn bMaxRel(bs seq(pbf.Block), i int) u64 decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, 0, max(ite(bs[i].BlobType != "OSMData", 0, gMaxRel(entGroups(bs[i]), 0)), bMaxRel(bs, i+1)))

# Each worker adds exactly its own blocks' totals to the shared sums, by single atomic steps, and raises each shared
# maximum to its own maximum, never lowering it and never writing anything else.
contract cmd/entitycount.countEntities$1(ctx, chIn, chOut)
  props C22 C24
  sets pooled = cat(pooled, putData(recv_chIn, 0))
  safe entIns(recv_chIn, 0)
  shared blockCount rely true guarantee true
  shared nodeCount rely true guarantee true
  shared wayCount rely true guarantee true
  shared relationCount rely true guarantee true
  shared wayRefCount rely true guarantee true
  shared maxNode rely prev <= next guarantee next == bMaxNode(recv_chIn, 0) && next > prev
  shared maxWay rely prev <= next guarantee next == bMaxWay(recv_chIn, 0) && next > prev
  shared maxRelation rely prev <= next guarantee next == bMaxRel(recv_chIn, 0) && next > prev
  shared maxWayRefCount rely prev <= next guarantee next == bMaxRefs(recv_chIn, 0) && next > prev
  sets added_blockCount = u64(len(recv_chIn))
  sets added_nodeCount = bNodes(recv_chIn, 0)
  sets added_wayCount = bWays(recv_chIn, 0)
  sets added_relationCount = bRels(recv_chIn, 0)
  sets added_wayRefCount = bRefs(recv_chIn, 0)
  havocs added_maxNode
  havocs added_maxWay
  havocs added_maxRelation
  havocs added_maxWayRefCount
  ensures new(maxNode) >= bMaxNode(recv_chIn, 0)
  ensures new(maxWay) >= bMaxWay(recv_chIn, 0)
  ensures new(maxRelation) >= bMaxRel(recv_chIn, 0)
  ensures new(maxWayRefCount) >= bMaxRefs(recv_chIn, 0)
  loop 0
    inv cat(pooled, putData(recv_chIn, nrecv_chIn)) == cat(old(pooled), putData(recv_chIn, 0))
    inv localBlockCount == u64(nrecv_chIn)
    inv u64(localNodeCount + bNodes(recv_chIn, nrecv_chIn)) == bNodes(recv_chIn, 0)
    inv u64(localWayCount + bWays(recv_chIn, nrecv_chIn)) == bWays(recv_chIn, 0)
    inv u64(localRelationCount + bRels(recv_chIn, nrecv_chIn)) == bRels(recv_chIn, 0)
    inv u64(localWayRefCount + bRefs(recv_chIn, nrecv_chIn)) == bRefs(recv_chIn, 0)
    inv max(localMaxNode, bMaxNode(recv_chIn, nrecv_chIn)) == bMaxNode(recv_chIn, 0)
    inv max(localMaxWay, bMaxWay(recv_chIn, nrecv_chIn)) == bMaxWay(recv_chIn, 0)
    inv max(localMaxRelation, bMaxRel(recv_chIn, nrecv_chIn)) == bMaxRel(recv_chIn, 0)
    inv max(localMaxWayRefCount, bMaxRefs(recv_chIn, nrecv_chIn)) == bMaxRefs(recv_chIn, 0)
    inv imp(entIns(recv_chIn, 0), entIns(recv_chIn, nrecv_chIn))
  loop 1
    inv u64(localNodeCount + gNodes(pb.PrimitiveGroup, iter)) == u64(begin(localNodeCount) + gNodes(pb.PrimitiveGroup, 0))
    inv u64(localWayCount + gWays(pb.PrimitiveGroup, iter)) == u64(begin(localWayCount) + gWays(pb.PrimitiveGroup, 0))
    inv u64(localRelationCount + gRels(pb.PrimitiveGroup, iter)) == u64(begin(localRelationCount) + gRels(pb.PrimitiveGroup, 0))
    inv u64(localWayRefCount + gRefs(pb.PrimitiveGroup, iter)) == u64(begin(localWayRefCount) + gRefs(pb.PrimitiveGroup, 0))
    inv max(localMaxNode, gMaxNode(pb.PrimitiveGroup, iter)) == max(begin(localMaxNode), gMaxNode(pb.PrimitiveGroup, 0))
    inv max(localMaxWay, gMaxWay(pb.PrimitiveGroup, iter)) == max(begin(localMaxWay), gMaxWay(pb.PrimitiveGroup, 0))
    inv max(localMaxRelation, gMaxRel(pb.PrimitiveGroup, iter)) == max(begin(localMaxRelation), gMaxRel(pb.PrimitiveGroup, 0))
    inv max(localMaxWayRefCount, gMaxRefs(pb.PrimitiveGroup, iter)) == max(begin(localMaxWayRefCount), gMaxRefs(pb.PrimitiveGroup, 0))
  loop 2
    inv max(localMaxNode, maxId(pg.Dense.Id, iter)) == max(begin(localMaxNode), maxId(pg.Dense.Id, 0))
  loop 3
    inv u64(localWayRefCount + sumRefs(pg.Ways, iter)) == u64(begin(localWayRefCount) + sumRefs(pg.Ways, 0))
    inv max(localMaxWay, maxWay(pg.Ways, iter)) == max(begin(localMaxWay), maxWay(pg.Ways, 0))
    inv max(localMaxWayRefCount, maxRefs(pg.Ways, iter)) == max(begin(localMaxWayRefCount), maxRefs(pg.Ways, 0))
  loop 4
    inv max(localMaxRelation, maxRel(pg.Relations, iter)) == max(begin(localMaxRelation), maxRel(pg.Relations, 0))
