# The reorder buffer: what is sent is in index order, nothing received is lost.

inline pbf.reorderBuffer.pop

# where in the stream a block with the given index is
ufn whereIs(bs seq(pbf.Block), idx u64) int

fn apart(bs seq(pbf.Block)) bool = forall(i, 0, len(bs), whereIs(bs, bs[i].Index) == i)
fn inOrder(out seq(pbf.Block)) bool = forall(j, 0, len(out), out[j].Index == j)
fn complete(bs seq(pbf.Block)) bool = apart(bs) && forall(i, 0, len(bs), bs[i].Index < len(bs)) && forall(j, 0, len(bs), 0 <= whereIs(bs, j) && whereIs(bs, j) < len(bs) && bs[whereIs(bs, j)].Index == j)
fn delivered(bs seq(pbf.Block), out seq(pbf.Block)) bool = forall(i, 0, len(bs), bs[i].Index < len(out) && out[bs[i].Index] == bs[i])
fn held(bs seq(pbf.Block), n int, out seq(pbf.Block), rob gomap(u64,pbf.Block)) bool = forall(i, 0, n, ite(bs[i].Index < len(out), out[bs[i].Index] == bs[i], maphas(rob, bs[i].Index) && mapval(rob, bs[i].Index) == bs[i]))
fn keyed(rob gomap(u64,pbf.Block)) bool = forall(k, 0, 18446744073709551616, imp(maphas(rob, k), mapval(rob, k).Index == k))
fn robFrom(bs seq(pbf.Block), n int, rob gomap(u64,pbf.Block)) bool = forall(k, 0, 18446744073709551616, imp(maphas(rob, k), 0 <= whereIs(bs, k) && whereIs(bs, k) < n))
fn sentFrom(bs seq(pbf.Block), n int, m int) bool = forall(j, 0, m, 0 <= whereIs(bs, j) && whereIs(bs, j) < n)
lemma newIdx(bs seq(pbf.Block), n int, rob gomap(u64,pbf.Block), m int)
  props C14
  requires 0 <= n && n < len(bs) && apart(bs) && robFrom(bs, n, rob) && sentFrom(bs, n, m)
  ensures whereIs(bs, bs[n].Index) == n
  ensures !maphas(rob, bs[n].Index)
  ensures m <= bs[n].Index
lemma inOrderPush(out seq(pbf.Block), b pbf.Block)
  props C14
  requires inOrder(out) && b.Index == len(out)
  ensures inOrder(push(out, b))
lemma heldNew(bs seq(pbf.Block), n int, out seq(pbf.Block), rob gomap(u64,pbf.Block))
  props C14
  requires 0 <= n && n < len(bs) && apart(bs) && robFrom(bs, n, rob) && sentFrom(bs, n, len(out)) && held(bs, n, out, rob)
  ensures held(bs, n+1, out, mapput(rob, bs[n].Index, bs[n]))
lemma heldPop(bs seq(pbf.Block), n int, out seq(pbf.Block), rob gomap(u64,pbf.Block))
  props C14
  requires held(bs, n, out, rob) && maphas(rob, len(out)) && n <= len(bs)
  ensures held(bs, n, push(out, mapval(rob, len(out))), mapdel(rob, len(out)))

contract pbf.reorder(inBlocks, outBlocks, wg)
  props C14
  safe complete(recv_inBlocks)
  ensures inOrder(new(sent_outBlocks))
  ensures imp(apart(recv_inBlocks), delivered(recv_inBlocks, new(sent_outBlocks)))
  ensures imp(apart(recv_inBlocks), len(new(sent_outBlocks)) == len(recv_inBlocks))
  loop 0
    use imp(nrecv_inBlocks < len(recv_inBlocks) && apart(recv_inBlocks), newIdx(recv_inBlocks, nrecv_inBlocks, rob, len(sent_outBlocks)))
    use imp(nrecv_inBlocks < len(recv_inBlocks) && apart(recv_inBlocks), heldNew(recv_inBlocks, nrecv_inBlocks, sent_outBlocks, rob))
    use imp(nrecv_inBlocks < len(recv_inBlocks) && apart(recv_inBlocks) && maphas(mapput(rob, recv_inBlocks[nrecv_inBlocks].Index, recv_inBlocks[nrecv_inBlocks]), len(sent_outBlocks)), heldPop(recv_inBlocks, nrecv_inBlocks+1, sent_outBlocks, mapput(rob, recv_inBlocks[nrecv_inBlocks].Index, recv_inBlocks[nrecv_inBlocks])))
    inv next == len(sent_outBlocks)
    inv inOrder(sent_outBlocks)
    inv keyed(rob)
    inv !maphas(rob, next)
    inv imp(apart(recv_inBlocks), maplen(rob) + next == nrecv_inBlocks)
    inv imp(apart(recv_inBlocks), held(recv_inBlocks, nrecv_inBlocks, sent_outBlocks, rob))
    inv imp(apart(recv_inBlocks), robFrom(recv_inBlocks, nrecv_inBlocks, rob))
    inv imp(apart(recv_inBlocks), sentFrom(recv_inBlocks, nrecv_inBlocks, len(sent_outBlocks)))
  loop 1
    use imp(ok, inOrderPush(sent_outBlocks, b))
    use imp(apart(recv_inBlocks) && ok && maphas(rob, next+1), heldPop(recv_inBlocks, nrecv_inBlocks, push(sent_outBlocks, b), rob))
    inv next == len(sent_outBlocks)
    inv inOrder(sent_outBlocks)
    inv keyed(rob)
    inv !maphas(rob, next)
    inv imp(ok, b.Index == next)
    inv imp(apart(recv_inBlocks), maplen(rob) + ite(ok, 1, 0) + next == nrecv_inBlocks)
    inv imp(apart(recv_inBlocks), held(recv_inBlocks, nrecv_inBlocks, ite(ok, push(sent_outBlocks, b), sent_outBlocks), rob))
    inv imp(apart(recv_inBlocks), robFrom(recv_inBlocks, nrecv_inBlocks, rob))
    inv imp(apart(recv_inBlocks), sentFrom(recv_inBlocks, nrecv_inBlocks, len(sent_outBlocks) + ite(ok, 1, 0)))
