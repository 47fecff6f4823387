# Entities and blocks.

ufn sortedStrings(xs seq(bytes)) seq(bytes)
# the keys of a map in ascending order
ufn sortedKeys(dom map(bytes,bool)) seq(bytes)

contract t.PrimitiveBlock.GetString(pblk, id)
  props C26 C28 C18
  safe !isnil(pblk.StringTable) && id < len(pblk.StringTable.S)
  returns pblk.StringTable.S[id]

# dense key/value lists: one zero-terminated run of pairs per node
fn runKeys(kv seq(i32), i int, cur seq(u32)) seq(seq(u32)) decreases ite(i >= len(kv), 0, len(kv)-i) = ite(i >= len(kv) || i < 0, empty(seq(seq(u32))), ite(kv[i] == 0, cons(cur, runKeys(kv, i+1, empty(seq(u32)))), runKeys(kv, i+2, push(cur, u32(kv[i])))))
fn runVals(kv seq(i32), i int, cur seq(u32)) seq(seq(u32)) decreases ite(i >= len(kv), 0, len(kv)-i) = ite(i >= len(kv) || i < 0, empty(seq(seq(u32))), ite(kv[i] == 0, cons(cur, runVals(kv, i+1, empty(seq(u32)))), runVals(kv, i+2, push(cur, u32(kv[i+1])))))
fn runOK(kv seq(i32), i int) bool decreases ite(i >= len(kv), 0, len(kv)-i) = ite(i >= len(kv) || i < 0, true, ite(kv[i] == 0, runOK(kv, i+1), i+1 < len(kv) && runOK(kv, i+2)))
fn cacheOK3(kv seq(i32), ck seq(seq(u32)), cv seq(seq(u32))) bool decreases 0 = ite(len(ck) == 0, len(cv) == 0, ck == runKeys(kv, 0, empty(seq(u32))) && cv == runVals(kv, 0, empty(seq(u32))))
opaque cacheOK3
fn cacheOK(d t.DenseNodes) bool = cacheOK3(d.KeyVals, d.cacheKeys, d.cacheVals)
nonil t.DenseNodes.cacheKeys
nonil t.DenseNodes.cacheVals

fn keysAt(kv seq(i32), i int) seq(u32) decreases 0 = ite(len(kv) == 0, empty(seq(u32)), runKeys(kv, 0, empty(seq(u32)))[i])
fn valsAt(kv seq(i32), i int) seq(u32) decreases 0 = ite(len(kv) == 0, empty(seq(u32)), runVals(kv, 0, empty(seq(u32)))[i])

fn kvIdxOK(kv seq(i32), i int) bool decreases 0 = len(kv) == 0 || runOK(kv, 0) && i < len(runKeys(kv, 0, empty(seq(u32)))) && i < len(runVals(kv, 0, empty(seq(u32))))
opaque keysAt
opaque valsAt
opaque kvIdxOK
lemma cacheDef(kv seq(i32), ck seq(seq(u32)), cv seq(seq(u32)))
  props C26
  ensures cacheOK3(kv, ck, cv) == ite(len(ck) == 0, len(cv) == 0, ck == runKeys(kv, 0, empty(seq(u32))) && cv == runVals(kv, 0, empty(seq(u32))))
  unfold cacheOK3(kv, ck, cv)
lemma cacheFull(kv seq(i32))
  props C26
  ensures imp(len(runKeys(kv, 0, empty(seq(u32)))) > 0, cacheOK3(kv, runKeys(kv, 0, empty(seq(u32))), runVals(kv, 0, empty(seq(u32)))))
  unfold cacheOK3(kv, runKeys(kv, 0, empty(seq(u32))), runVals(kv, 0, empty(seq(u32))))
lemma kvDef(kv seq(i32), i int)
  props C26
  ensures keysAt(kv, i) == ite(len(kv) == 0, empty(seq(u32)), runKeys(kv, 0, empty(seq(u32)))[i])
  ensures valsAt(kv, i) == ite(len(kv) == 0, empty(seq(u32)), runVals(kv, 0, empty(seq(u32)))[i])
  ensures kvIdxOK(kv, i) == (len(kv) == 0 || runOK(kv, 0) && i < len(runKeys(kv, 0, empty(seq(u32)))) && i < len(runVals(kv, 0, empty(seq(u32)))))
  unfold keysAt(kv, i)
  unfold valsAt(kv, i)
  unfold kvIdxOK(kv, i)

contract t.DenseNodes.GetKeyVals(dn, idx)
  props C26 C28 C18
  requires cacheOK(dn)
  requires 0 <= idx
  safe kvIdxOK(dn.KeyVals, idx)
  use kvDef(dn.KeyVals, idx)
  use cacheDef(dn.KeyVals, dn.cacheKeys, dn.cacheVals)
  use cacheFull(dn.KeyVals)
  option shares
  memo dn.cacheKeys
  memo dn.cacheVals
  ensures memo: cacheOK3(dn.KeyVals, new(dn.cacheKeys), new(dn.cacheVals))
  ensures els(result0) == keysAt(dn.KeyVals, idx) && els(result1) == valsAt(dn.KeyVals, idx)
  loop 0
    inv 0 <= startOfKeyVals && startOfKeyVals <= len(dn.KeyVals)+1
    inv imp(runOK(dn.KeyVals, 0), runOK(dn.KeyVals, startOfKeyVals) && startOfKeyVals <= len(dn.KeyVals))
    inv cat(dn.cacheKeys, runKeys(dn.KeyVals, startOfKeyVals, curKeys)) == runKeys(dn.KeyVals, 0, empty(seq(u32)))
    inv cat(dn.cacheVals, runVals(dn.KeyVals, startOfKeyVals, curVals)) == runVals(dn.KeyVals, 0, empty(seq(u32)))

# tags: later pairs win
fn tagFold(S seq(bytes), ks seq(u32), vs seq(u32), i int, m gomap(bytes,bytes)) gomap(bytes,bytes) decreases ite(i >= len(ks), 0, len(ks)-i) = ite(i >= len(ks) || i < 0, m, tagFold(S, ks, vs, i+1, mapput(m, S[ks[i]], S[vs[i]])))
fn tagsOK(n int, ks seq(u32), vs seq(u32), i int) bool decreases ite(i >= len(ks), 0, len(ks)-i) = ite(i >= len(ks) || i < 0, true, i < len(vs) && ks[i] < n && vs[i] < n && tagsOK(n, ks, vs, i+1))
fn tagsOf(S seq(bytes), ks seq(u32), vs seq(u32)) gomap(bytes,bytes) decreases 0 = tagFold(S, ks, vs, 0, mapnew("gomap(bytes,bytes)"))

fn strs(pb t.PrimitiveBlock) seq(bytes) = pb.StringTable.S
fn hlNode(S seq(bytes), gran i32, lat0 i64, lon0 i64, d t.DenseNodes, i int) t.HLNode decreases 0 = with(zero("t.HLNode"), Id, u64(d.Id[i]), Tags, tagsOf(S, keysAt(d.KeyVals, i), valsAt(d.KeyVals, i)), Lat, i64(lat0 + i64(gran*d.Lat[i])), Lon, i64(lon0 + i64(gran*d.Lon[i])))
fn hlNodes(S seq(bytes), gran i32, lat0 i64, lon0 i64, d t.DenseNodes, i int) seq(t.HLNode) decreases ite(i >= len(d.Id), 0, len(d.Id)-i) = ite(i >= len(d.Id) || i < 0, empty(seq(t.HLNode)), cons(hlNode(S, gran, lat0, lon0, d, i), hlNodes(S, gran, lat0, lon0, d, i+1)))
fn nodeOK(n int, d t.DenseNodes, i int) bool decreases 0 = i < len(d.Lat) && i < len(d.Lon) && kvIdxOK(d.KeyVals, i) && tagsOK(n, keysAt(d.KeyVals, i), valsAt(d.KeyVals, i), 0)
fn nodesOK(n int, d t.DenseNodes, i int) bool decreases ite(i >= len(d.Id), 0, len(d.Id)-i) = ite(i >= len(d.Id) || i < 0, true, nodeOK(n, d, i) && nodesOK(n, d, i+1))
fn grpNodes(S seq(bytes), gran i32, lat0 i64, lon0 i64, gs seq(t.PrimitiveGroup), i int) seq(t.HLNode) decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, empty(seq(t.HLNode)), cat(ite(isnil(gs[i].Dense), empty(seq(t.HLNode)), hlNodes(S, gran, lat0, lon0, gs[i].Dense, 0)), grpNodes(S, gran, lat0, lon0, gs, i+1)))
fn grpNodesOK(n int, gs seq(t.PrimitiveGroup), i int) bool decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, true, imp(!isnil(gs[i].Dense), nodesOK(n, gs[i].Dense, 0)) && grpNodesOK(n, gs, i+1))
fn cachesOK(gs seq(t.PrimitiveGroup), i int) bool decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, true, imp(!isnil(gs[i].Dense), cacheOK(gs[i].Dense)) && cachesOK(gs, i+1))

contract t.PrimitiveBlock.ToNodes(pblk)
  props C26 C28 C18
  requires cachesOK(pblk.PrimitiveGroup, 0)
  safe grpNodesOK(len(strs(pblk)), pblk.PrimitiveGroup, 0) && !isnil(pblk.StringTable)
  ensures els(result) == grpNodes(strs(pblk), pblk.Granularity, pblk.LatOffset, pblk.LonOffset, pblk.PrimitiveGroup, 0)
  loop 0
    inv cat(ns, grpNodes(strs(pblk), pblk.Granularity, pblk.LatOffset, pblk.LonOffset, pblk.PrimitiveGroup, iter)) == grpNodes(strs(pblk), pblk.Granularity, pblk.LatOffset, pblk.LonOffset, pblk.PrimitiveGroup, 0)
    inv cachesOK(pblk.PrimitiveGroup, iter)
    inv imp(grpNodesOK(len(strs(pblk)), pblk.PrimitiveGroup, 0), grpNodesOK(len(strs(pblk)), pblk.PrimitiveGroup, iter))
  loop 1
    inv 0 <= i && i <= len(pg.Dense.Id)
    inv cat(ns, hlNodes(strs(pblk), pblk.Granularity, pblk.LatOffset, pblk.LonOffset, pg.Dense, i)) == cat(begin(ns), hlNodes(strs(pblk), pblk.Granularity, pblk.LatOffset, pblk.LonOffset, pg.Dense, 0))
    inv imp(grpNodesOK(len(strs(pblk)), pblk.PrimitiveGroup, 0), nodesOK(len(strs(pblk)), pg.Dense, i))
  loop 2
    inv imp(grpNodesOK(len(strs(pblk)), pblk.PrimitiveGroup, 0), tagsOK(len(strs(pblk)), els(ks), els(vs), iter))
    inv tagFold(strs(pblk), els(ks), els(vs), iter, tags) == tagFold(strs(pblk), els(ks), els(vs), 0, begin(tags))

fn toU64s(xs seq(i64), i int) seq(u64) decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, empty(seq(u64)), cons(u64(xs[i]), toU64s(xs, i+1)))
fn hlWay(S seq(bytes), w t.Way) t.HLWay decreases 0 = with(zero("t.HLWay"), Id, w.ID, Tags, tagsOf(S, els(w.Keys), els(w.Vals)), Nodes, sl(toU64s(els(w.Refs), 0)))
fn hlWays(S seq(bytes), ws seq(t.Way), i int) seq(t.HLWay) decreases ite(i >= len(ws), 0, len(ws)-i) = ite(i >= len(ws) || i < 0, empty(seq(t.HLWay)), cons(hlWay(S, ws[i]), hlWays(S, ws, i+1)))
fn grpHlWays(S seq(bytes), gs seq(t.PrimitiveGroup), i int) seq(t.HLWay) decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, empty(seq(t.HLWay)), cat(hlWays(S, gs[i].Ways, 0), grpHlWays(S, gs, i+1)))
fn hlWaysOK(n int, ws seq(t.Way), i int) bool decreases ite(i >= len(ws), 0, len(ws)-i) = ite(i >= len(ws) || i < 0, true, tagsOK(n, els(ws[i].Keys), els(ws[i].Vals), 0) && hlWaysOK(n, ws, i+1))
fn grpWaysOK(n int, gs seq(t.PrimitiveGroup), i int) bool decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, true, hlWaysOK(n, gs[i].Ways, 0) && grpWaysOK(n, gs, i+1))

contract t.PrimitiveBlock.ToWays(pblk)
  props C26 C28 C18
  safe grpWaysOK(len(strs(pblk)), pblk.PrimitiveGroup, 0) && !isnil(pblk.StringTable)
  ensures els(result) == grpHlWays(strs(pblk), pblk.PrimitiveGroup, 0)
  loop 0
    inv cat(ws, grpHlWays(strs(pblk), pblk.PrimitiveGroup, iter)) == grpHlWays(strs(pblk), pblk.PrimitiveGroup, 0)
    inv imp(grpWaysOK(len(strs(pblk)), pblk.PrimitiveGroup, 0), grpWaysOK(len(strs(pblk)), pblk.PrimitiveGroup, iter))
  loop 1
    inv cat(ws, hlWays(strs(pblk), pg.Ways, iter)) == cat(begin(ws), hlWays(strs(pblk), pg.Ways, 0))
    inv imp(grpWaysOK(len(strs(pblk)), pblk.PrimitiveGroup, 0), hlWaysOK(len(strs(pblk)), pg.Ways, iter))
  loop 2
    inv 0 <= idx && idx <= len(w.Keys)
    inv tagFold(strs(pblk), els(w.Keys), els(w.Vals), idx, tags) == tagFold(strs(pblk), els(w.Keys), els(w.Vals), 0, begin(tags))
    inv imp(grpWaysOK(len(strs(pblk)), pblk.PrimitiveGroup, 0), tagsOK(len(strs(pblk)), els(w.Keys), els(w.Vals), idx))
  loop 3
    inv cat(ns, toU64s(els(w.Refs), iter)) == toU64s(els(w.Refs), 0)

fn rolesOf(S seq(bytes), rs seq(i32), i int) seq(bytes) decreases ite(i >= len(rs), 0, len(rs)-i) = ite(i >= len(rs) || i < 0, empty(seq(bytes)), cons(S[u32(rs[i])], rolesOf(S, rs, i+1)))
fn rolesOK(n int, rs seq(i32), i int) bool decreases ite(i >= len(rs), 0, len(rs)-i) = ite(i >= len(rs) || i < 0, true, u32(rs[i]) < n && rolesOK(n, rs, i+1))
fn toInts(xs seq(u64), i int) seq(i64) decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, empty(seq(i64)), cons(i64(xs[i]), toInts(xs, i+1)))
fn hlRel(S seq(bytes), r t.Relation) t.HLRelation decreases 0 = with(zero("t.HLRelation"), Id, r.ID, Tags, tagsOf(S, els(r.Keys), els(r.Vals)), Roles, sl(rolesOf(S, els(r.RolesSID), 0)), Members, sl(els(r.MemIDs)), MemberType, sl(toInts(els(r.MemberType), 0)))
fn hlRels(S seq(bytes), rs seq(t.Relation), i int) seq(t.HLRelation) decreases ite(i >= len(rs), 0, len(rs)-i) = ite(i >= len(rs) || i < 0, empty(seq(t.HLRelation)), cons(hlRel(S, rs[i]), hlRels(S, rs, i+1)))
fn grpRels(S seq(bytes), gs seq(t.PrimitiveGroup), i int) seq(t.HLRelation) decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, empty(seq(t.HLRelation)), cat(hlRels(S, gs[i].Relations, 0), grpRels(S, gs, i+1)))
fn hlRelsOK(n int, rs seq(t.Relation), i int) bool decreases ite(i >= len(rs), 0, len(rs)-i) = ite(i >= len(rs) || i < 0, true, tagsOK(n, els(rs[i].Keys), els(rs[i].Vals), 0) && rolesOK(n, els(rs[i].RolesSID), 0) && hlRelsOK(n, rs, i+1))
fn grpRelsOK(n int, gs seq(t.PrimitiveGroup), i int) bool decreases ite(i >= len(gs), 0, len(gs)-i) = ite(i >= len(gs) || i < 0, true, hlRelsOK(n, gs[i].Relations, 0) && grpRelsOK(n, gs, i+1))

contract t.PrimitiveBlock.ToRelations(pblk)
  props C26 C28 C18
  safe grpRelsOK(len(strs(pblk)), pblk.PrimitiveGroup, 0) && !isnil(pblk.StringTable)
  ensures els(result) == grpRels(strs(pblk), pblk.PrimitiveGroup, 0)
  loop 0
    inv cat(rs, grpRels(strs(pblk), pblk.PrimitiveGroup, iter)) == grpRels(strs(pblk), pblk.PrimitiveGroup, 0)
    inv imp(grpRelsOK(len(strs(pblk)), pblk.PrimitiveGroup, 0), grpRelsOK(len(strs(pblk)), pblk.PrimitiveGroup, iter))
  loop 1
    inv cat(rs, hlRels(strs(pblk), pg.Relations, iter)) == cat(begin(rs), hlRels(strs(pblk), pg.Relations, 0))
    inv imp(grpRelsOK(len(strs(pblk)), pblk.PrimitiveGroup, 0), hlRelsOK(len(strs(pblk)), pg.Relations, iter))
  loop 2
    inv 0 <= idx && idx <= len(r.Keys)
    inv tagFold(strs(pblk), els(r.Keys), els(r.Vals), idx, tags) == tagFold(strs(pblk), els(r.Keys), els(r.Vals), 0, begin(tags))
    inv imp(grpRelsOK(len(strs(pblk)), pblk.PrimitiveGroup, 0), tagsOK(len(strs(pblk)), els(r.Keys), els(r.Vals), idx))
  loop 3
    inv cat(roles, rolesOf(strs(pblk), els(r.RolesSID), iter)) == rolesOf(strs(pblk), els(r.RolesSID), 0)
    inv imp(grpRelsOK(len(strs(pblk)), pblk.PrimitiveGroup, 0), rolesOK(len(strs(pblk)), els(r.RolesSID), iter))
  loop 4
    inv cat(ts, toInts(els(r.MemberType), iter)) == toInts(els(r.MemberType), 0)
