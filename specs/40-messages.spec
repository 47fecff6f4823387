# OSM PBF messages: reading is a fold over the fields, writing is a byte layout.

# nil and empty lists are the same in these fields (nothing observable tells them apart)
nonil t.DenseNodes.Id t.DenseNodes.Lat t.DenseNodes.Lon t.DenseNodes.KeyVals t.StringTable.S
nonil t.Way.Keys t.Way.Vals t.Way.Refs
nonil t.Relation.Keys t.Relation.Vals t.Relation.RolesSID t.Relation.MemIDs t.Relation.MemberType

# ---- BlobHeader
fn okBH(b bytes, i int) bool decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b), true, isv(b, i) && let(id, vval(b, i), let(j, vend(b, i), ite(id == 10, lenok(b, j) && okBH(b, lend(b, j)), ite(id == 24, isv(b, j) && okBH(b, vend(b, j)), false)))))
fn rdBH(b bytes, i int, h t.BlobHeader) t.BlobHeader decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b), h, let(id, vval(b, i), let(j, vend(b, i), ite(id == 10, rdBH(b, lend(b, j), with(h, Type, lfield(b, j))), ite(id == 24, rdBH(b, vend(b, j), with(h, DataSize, i32(vval(b, j)))), h)))))

# whole headers, closed to the callers' proofs
fn hOK(b bytes) bool decreases 0 = okBH(b, 0)
opaque hOK
fn hRd(b bytes) t.BlobHeader decreases 0 = rdBH(b, 0, zero("t.BlobHeader"))
opaque hRd
lemma hDef(b bytes)
  props C04 C15
  ensures hOK(b) == okBH(b, 0)
  ensures hRd(b) == rdBH(b, 0, zero("t.BlobHeader"))
  unfold hOK(b)
  unfold hRd(b)

contract t.PBReader.ReadBlobHeader(pbr, buf)
  props C04 C15
  use hDef(buf)
  safe hOK(buf)
  ensures refusal: hOK(buf)
  returns hRd(buf)
  loop 0
    inv okBH(buf, next) == okBH(buf, 0)
    inv rdBH(buf, next, bh) == rdBH(buf, 0, zero("t.BlobHeader"))
    inv 0 <= next && next <= len(buf)

fn wrBH(h t.BlobHeader) bytes decreases 0 = cat(ite(len(h.Type) > 0, cat(varint(10), lenc(h.Type)), empty(bytes)), ite(h.DataSize != 0, cat(varint(24), varint(u64(h.DataSize))), empty(bytes)))

contract t.BlobHeader.Write(bh, buf)
  props C04 C15 C16
  appends buf = wrBH(bh)

fn wrBH1(h t.BlobHeader) bytes = ite(len(h.Type) > 0, cat(bytes(10), lenc(h.Type)), empty(bytes))
fn wrBH2(h t.BlobHeader) bytes = ite(h.DataSize != 0, cat(bytes(24), varint(u64(h.DataSize))), empty(bytes))
lemma roundBH(h t.BlobHeader)
  props C04
  requires len(h.Type) <= MAXI
  ensures okBH(wrBH(h), 0)
  ensures rdBH(wrBH(h), 0, zero("t.BlobHeader")) == h
  split len(h.Type) > 0
  split h.DataSize != 0
  unfold wrBH(h)
  use imp(len(h.Type) > 0, tag(empty(bytes), 10, cat(lenc(h.Type), wrBH2(h))))
  use imp(len(h.Type) > 0, lenRound(bytes(10), h.Type, wrBH2(h)))
  use imp(h.DataSize != 0, tag(wrBH1(h), 24, varint(u64(h.DataSize))))
  use imp(h.DataSize != 0, vRound(cat(wrBH1(h), bytes(24)), u64(h.DataSize), empty(bytes), 0))

# ---- Blob
fn okB(b bytes, i int) bool decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b), true, isv(b, i) && let(id, vval(b, i), let(j, vend(b, i), ite(id == 10 || id == 26, lenok(b, j) && okB(b, lend(b, j)), ite(id == 16, isv(b, j) && okB(b, vend(b, j)), false)))))
fn rdB(b bytes, i int, h t.Blob) t.Blob decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b), h, let(id, vval(b, i), let(j, vend(b, i), ite(id == 10, rdB(b, lend(b, j), with(h, Raw, sl(lfield(b, j)))), ite(id == 26, rdB(b, lend(b, j), with(h, ZLibData, sl(lfield(b, j)))), ite(id == 16, rdB(b, vend(b, j), with(h, RawSize, some(i32(vval(b, j))))), h))))))

contract t.PBReader.ReadBlob(pbr, buf, b)
  props C04 C16
  safe okB(buf, 0)
  ensures refusal: okB(buf, 0)
  sets b = rdB(buf, 0, b)
  loop 0
    inv okB(buf, next) == okB(buf, 0)
    inv rdB(buf, next, b) == rdB(buf, 0, old(b))
    inv 0 <= next && next <= len(buf)

fn wrB1(h t.Blob) bytes = ite(!isnil(h.RawFunc), cat(varint(10), pad4(len(fnbytes(h.RawFunc))), fnbytes(h.RawFunc)), ite(isnil(h.Raw), empty(bytes), cat(varint(10), lenc(h.Raw))))
fn wrB2(h t.Blob) bytes = ite(isnil(h.RawSize), empty(bytes), cat(varint(16), varint(u64(h.RawSize))))
fn wrB3(h t.Blob) bytes = ite(len(h.ZLibData) > 0, cat(varint(26), lenc(h.ZLibData)), empty(bytes))
fn wrB(h t.Blob) bytes decreases 0 = cat(wrB1(h), wrB2(h), wrB3(h))
fn fitB(h t.Blob) bool = isnil(h.RawFunc) || len(fnbytes(h.RawFunc)) < 268435456

contract t.Blob.Write(b, buf)
  props C04 C16
  safe fitB(b)
  ensures refusal: fitB(b)
  appends buf = wrB(b)

lemma roundB(h t.Blob)
  props C04
  requires h.RawFunc == zero("t.Blob").RawFunc && len(h.Raw) <= MAXI && len(h.ZLibData) <= MAXI
  requires isnil(h.ZLibData) == (len(h.ZLibData) == 0) && imp(isnil(h.Raw), len(h.Raw) == 0)
  ensures okB(wrB(h), 0)
  ensures rdB(wrB(h), 0, zero("t.Blob")) == h
  split isnil(h.Raw)
  split isnil(h.RawSize)
  split len(h.ZLibData) > 0
  unfold wrB(h)
  use imp(!isnil(h.Raw), tag(cat(empty(bytes)), 10, cat(lenc(els(h.Raw)), ite(!isnil(h.RawSize), cat(bytes(16), varint(u64(h.RawSize))), empty(bytes)), ite(len(h.ZLibData) > 0, cat(bytes(26), lenc(els(h.ZLibData))), empty(bytes)))))
  use imp(!isnil(h.Raw), lenRound(cat(cat(empty(bytes)), bytes(10)), els(h.Raw), cat(empty(bytes), ite(!isnil(h.RawSize), cat(bytes(16), varint(u64(h.RawSize))), empty(bytes)), ite(len(h.ZLibData) > 0, cat(bytes(26), lenc(els(h.ZLibData))), empty(bytes)))))
  use imp(!isnil(h.RawSize), tag(cat(empty(bytes), ite(!isnil(h.Raw), cat(bytes(10), lenc(els(h.Raw))), empty(bytes))), 16, cat(varint(u64(h.RawSize)), ite(len(h.ZLibData) > 0, cat(bytes(26), lenc(els(h.ZLibData))), empty(bytes)))))
  use imp(!isnil(h.RawSize), vRound(cat(cat(empty(bytes), ite(!isnil(h.Raw), cat(bytes(10), lenc(els(h.Raw))), empty(bytes))), bytes(16)), u64(h.RawSize), cat(empty(bytes), ite(len(h.ZLibData) > 0, cat(bytes(26), lenc(els(h.ZLibData))), empty(bytes))), 0))
  use imp(len(h.ZLibData) > 0, tag(cat(empty(bytes), ite(!isnil(h.Raw), cat(bytes(10), lenc(els(h.Raw))), empty(bytes)), ite(!isnil(h.RawSize), cat(bytes(16), varint(u64(h.RawSize))), empty(bytes))), 26, cat(lenc(els(h.ZLibData)))))
  use imp(len(h.ZLibData) > 0, lenRound(cat(cat(empty(bytes), ite(!isnil(h.Raw), cat(bytes(10), lenc(els(h.Raw))), empty(bytes)), ite(!isnil(h.RawSize), cat(bytes(16), varint(u64(h.RawSize))), empty(bytes))), bytes(26)), els(h.ZLibData), cat(empty(bytes))))

# ---- StringTable
fn okST(b bytes, i int) bool decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b), true, isv(b, i) && vval(b, i) == 10 && lenok(b, vend(b, i)) && okST(b, lend(b, vend(b, i))))
fn rdST(b bytes, i int) seq(string) decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b), emptyof("seq(string)"), cons(lfield(b, vend(b, i)), rdST(b, lend(b, vend(b, i)))))

contract t.ReadStringTable(buf, st)
  props C04
  safe okST(buf, 0)
  ensures refusal: okST(buf, 0)
  ensures new(st).S == cat(st.S, rdST(buf, 0))
  havocs st
  loop 0
    inv okST(buf, next) == okST(buf, 0)
    inv cat(st.S, rdST(buf, next)) == cat(old(st).S, rdST(buf, 0))
    inv 0 <= next && next <= len(buf)

fn wrST(xs seq(string), i int) bytes decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, empty(bytes), cat(varint(10), lenc(xs[i]), wrST(xs, i+1)))
contract t.StringTable.Write(st, buf)
  props C04 C16
  appends buf = wrST(st.S, 0)
  loop 0
    inv cat(buf, wrST(st.S, iter)) == cat(old(buf), wrST(st.S, 0))

fn allMAXI(xs seq(string), i int) bool decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs), true, len(xs[i]) <= MAXI && allMAXI(xs, i+1))
lemma roundST(A bytes, xs seq(string), i int)
  props C04
  requires 0 <= i && i <= len(xs)
  requires allMAXI(xs, i)
  ensures okST(cat(A, wrST(xs, i)), len(A))
  ensures rdST(cat(A, wrST(xs, i)), len(A)) == xs[i:]
  split i < len(xs)
  unfold wrST(xs, i)
  unfold allMAXI(xs, i)
  use imp(i < len(xs), tag(A, 10, cat(lenc(xs[i]), wrST(xs, i+1))))
  use imp(i < len(xs), lenRound(cat(A, bytes(10)), xs[i], wrST(xs, i+1)))
  use imp(i < len(xs), roundST(cat(A, bytes(10), lenc(xs[i])), xs, i+1))
  decreases len(xs) - i

# ---- DenseNodes
fn okD(b bytes, i int) bool decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b), true, isv(b, i) && let(id, vval(b, i), let(j, vend(b, i), ite(id == 10 || id == 66 || id == 74 || id == 82, lenok(b, j) && allv(lfield(b, j), 0) && okD(b, lend(b, j)), ite(id == 42, lenok(b, j) && okD(b, lend(b, j)), false)))))
fn rdD(b bytes, i int, h t.DenseNodes) t.DenseNodes decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b), h, let(id, vval(b, i), let(j, vend(b, i), ite(id == 10, rdD(b, lend(b, j), with(h, Id, decS64Delta(lfield(b, j), 0, 0))), ite(id == 66, rdD(b, lend(b, j), with(h, Lat, decS64Delta(lfield(b, j), 0, 0))), ite(id == 74, rdD(b, lend(b, j), with(h, Lon, decS64Delta(lfield(b, j), 0, 0))), ite(id == 82, rdD(b, lend(b, j), with(h, KeyVals, decI32(lfield(b, j), 0))), ite(id == 42, rdD(b, lend(b, j), h), h))))))))

contract t.ReadDenseNodes(buf, dn)
  props C04
  safe okD(buf, 0)
  ensures refusal: okD(buf, 0)
  sets dn = rdD(buf, 0, dn)
  loop 0
    inv okD(buf, next) == okD(buf, 0)
    inv rdD(buf, next, dn) == rdD(buf, 0, old(dn))
    inv 0 <= next && next <= len(buf)

fn emb2(id int, x bytes) bytes = cat(varint(8*id+2), pad2(len(x)), x)
fn emb3(id int, x bytes) bytes = cat(varint(8*id+2), pad3(len(x)), x)
fn emb4(id int, x bytes) bytes = cat(varint(8*id+2), pad4(len(x)), x)
fn wrD(h t.DenseNodes) bytes decreases 0 = cat(emb3(1, encS64Delta(h.Id, 0, 0)), emb3(8, encS64Delta(h.Lat, 0, 0)), emb3(9, encS64Delta(h.Lon, 0, 0)), ite(len(h.KeyVals) > 0, emb4(10, encI32(h.KeyVals, 0)), empty(bytes)))
fn fitD(h t.DenseNodes) bool decreases 0 = len(encS64Delta(h.Id, 0, 0)) < 2097152 && len(encS64Delta(h.Lat, 0, 0)) < 2097152 && len(encS64Delta(h.Lon, 0, 0)) < 2097152 && imp(len(h.KeyVals) > 0, len(encI32(h.KeyVals, 0)) < 268435456)

contract t.DenseNodes.Write(dn, buf)
  props C04 C18
  safe fitD(dn)
  ensures refusal: fitD(dn)
  appends buf = wrD(dn)

lemma roundD(h t.DenseNodes)
  props C04
  requires h == with(zero("t.DenseNodes"), Id, h.Id, Lat, h.Lat, Lon, h.Lon, KeyVals, h.KeyVals)
  requires fitD(h)
  ensures okD(wrD(h), 0)
  ensures rdD(wrD(h), 0, zero("t.DenseNodes")) == h
  split len(h.KeyVals) > 0
  unfold wrD(h)
  unfold fitD(h)
  use roundS64Delta(empty(bytes), h.Id, 0, 0)
  use roundS64Delta(empty(bytes), h.Lat, 0, 0)
  use roundS64Delta(empty(bytes), h.Lon, 0, 0)
  use roundI32(empty(bytes), h.KeyVals, 0)
  use tag(cat(empty(bytes)), 10, cat(pad3(len(encS64Delta(h.Id, 0, 0))), encS64Delta(h.Id, 0, 0), cat(bytes(66), pad3(len(encS64Delta(h.Lat, 0, 0))), encS64Delta(h.Lat, 0, 0)), cat(bytes(74), pad3(len(encS64Delta(h.Lon, 0, 0))), encS64Delta(h.Lon, 0, 0)), ite(len(h.KeyVals) > 0, cat(bytes(82), pad4(len(encI32(h.KeyVals, 0))), encI32(h.KeyVals, 0)), empty(bytes))))
  use padRound3(cat(cat(empty(bytes)), bytes(10)), encS64Delta(h.Id, 0, 0), cat(empty(bytes), cat(bytes(66), pad3(len(encS64Delta(h.Lat, 0, 0))), encS64Delta(h.Lat, 0, 0)), cat(bytes(74), pad3(len(encS64Delta(h.Lon, 0, 0))), encS64Delta(h.Lon, 0, 0)), ite(len(h.KeyVals) > 0, cat(bytes(82), pad4(len(encI32(h.KeyVals, 0))), encI32(h.KeyVals, 0)), empty(bytes))))
  use tag(cat(empty(bytes), cat(bytes(10), pad3(len(encS64Delta(h.Id, 0, 0))), encS64Delta(h.Id, 0, 0))), 66, cat(pad3(len(encS64Delta(h.Lat, 0, 0))), encS64Delta(h.Lat, 0, 0), cat(bytes(74), pad3(len(encS64Delta(h.Lon, 0, 0))), encS64Delta(h.Lon, 0, 0)), ite(len(h.KeyVals) > 0, cat(bytes(82), pad4(len(encI32(h.KeyVals, 0))), encI32(h.KeyVals, 0)), empty(bytes))))
  use padRound3(cat(cat(empty(bytes), cat(bytes(10), pad3(len(encS64Delta(h.Id, 0, 0))), encS64Delta(h.Id, 0, 0))), bytes(66)), encS64Delta(h.Lat, 0, 0), cat(empty(bytes), cat(bytes(74), pad3(len(encS64Delta(h.Lon, 0, 0))), encS64Delta(h.Lon, 0, 0)), ite(len(h.KeyVals) > 0, cat(bytes(82), pad4(len(encI32(h.KeyVals, 0))), encI32(h.KeyVals, 0)), empty(bytes))))
  use tag(cat(empty(bytes), cat(bytes(10), pad3(len(encS64Delta(h.Id, 0, 0))), encS64Delta(h.Id, 0, 0)), cat(bytes(66), pad3(len(encS64Delta(h.Lat, 0, 0))), encS64Delta(h.Lat, 0, 0))), 74, cat(pad3(len(encS64Delta(h.Lon, 0, 0))), encS64Delta(h.Lon, 0, 0), ite(len(h.KeyVals) > 0, cat(bytes(82), pad4(len(encI32(h.KeyVals, 0))), encI32(h.KeyVals, 0)), empty(bytes))))
  use padRound3(cat(cat(empty(bytes), cat(bytes(10), pad3(len(encS64Delta(h.Id, 0, 0))), encS64Delta(h.Id, 0, 0)), cat(bytes(66), pad3(len(encS64Delta(h.Lat, 0, 0))), encS64Delta(h.Lat, 0, 0))), bytes(74)), encS64Delta(h.Lon, 0, 0), cat(empty(bytes), ite(len(h.KeyVals) > 0, cat(bytes(82), pad4(len(encI32(h.KeyVals, 0))), encI32(h.KeyVals, 0)), empty(bytes))))
  use imp(len(h.KeyVals) > 0, tag(cat(empty(bytes), cat(bytes(10), pad3(len(encS64Delta(h.Id, 0, 0))), encS64Delta(h.Id, 0, 0)), cat(bytes(66), pad3(len(encS64Delta(h.Lat, 0, 0))), encS64Delta(h.Lat, 0, 0)), cat(bytes(74), pad3(len(encS64Delta(h.Lon, 0, 0))), encS64Delta(h.Lon, 0, 0))), 82, cat(pad4(len(encI32(h.KeyVals, 0))), encI32(h.KeyVals, 0))))
  use imp(len(h.KeyVals) > 0, padRound4(cat(cat(empty(bytes), cat(bytes(10), pad3(len(encS64Delta(h.Id, 0, 0))), encS64Delta(h.Id, 0, 0)), cat(bytes(66), pad3(len(encS64Delta(h.Lat, 0, 0))), encS64Delta(h.Lat, 0, 0)), cat(bytes(74), pad3(len(encS64Delta(h.Lon, 0, 0))), encS64Delta(h.Lon, 0, 0))), bytes(82)), encI32(h.KeyVals, 0), cat(empty(bytes))))

# ---- Way
fn okW(b bytes, i int) bool decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b), true, isv(b, i) && let(id, vval(b, i), let(j, vend(b, i), ite(id == 18 || id == 26 || id == 66, lenok(b, j) && allv(lfield(b, j), 0) && okW(b, lend(b, j)), ite(id == 34, lenok(b, j) && okW(b, lend(b, j)), ite(id == 8, isv(b, j) && okW(b, vend(b, j)), false))))))
fn rdW(b bytes, i int, h t.Way) t.Way decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b), h, let(id, vval(b, i), let(j, vend(b, i), ite(id == 18, rdW(b, lend(b, j), with(h, Keys, decU32(lfield(b, j), 0))), ite(id == 26, rdW(b, lend(b, j), with(h, Vals, decU32(lfield(b, j), 0))), ite(id == 66, rdW(b, lend(b, j), with(h, Refs, decS64Delta(lfield(b, j), 0, 0))), ite(id == 34, rdW(b, lend(b, j), h), ite(id == 8, rdW(b, vend(b, j), with(h, ID, i64(vval(b, j)))), h))))))))

contract t.PBReader.ReadWay(pbr, buf, w)
  props C04
  safe okW(buf, 0)
  ensures refusal: okW(buf, 0)
  sets w = rdW(buf, 0, w)
  loop 0
    inv okW(buf, next) == okW(buf, 0)
    inv rdW(buf, next, w) == rdW(buf, 0, old(w))
    inv 0 <= next && next <= len(buf)

fn wrW(h t.Way) bytes decreases 0 = cat(varint(8), varint(u64(h.ID)), emb2(2, encU32(h.Keys, 0)), emb2(3, encU32(h.Vals, 0)), emb2(8, encS64Delta(h.Refs, 0, 0)))
fn fitW(h t.Way) bool decreases 0 = len(encU32(h.Keys, 0)) < 16384 && len(encU32(h.Vals, 0)) < 16384 && len(encS64Delta(h.Refs, 0, 0)) < 16384

contract t.Way.Write(w, buf)
  props C04 C17
  safe fitW(w)
  ensures refusal: fitW(w)
  appends buf = wrW(w)

lemma roundW(h t.Way)
  props C04
  requires fitW(h)
  ensures okW(wrW(h), 0)
  ensures rdW(wrW(h), 0, zero("t.Way")) == h
  unfold wrW(h)
  unfold fitW(h)
  use roundU32(empty(bytes), h.Keys, 0)
  use roundU32(empty(bytes), h.Vals, 0)
  use roundS64Delta(empty(bytes), h.Refs, 0, 0)
  use tag(cat(empty(bytes)), 8, cat(varint(u64(h.ID)), cat(bytes(18), pad2(len(encU32(h.Keys, 0))), encU32(h.Keys, 0)), cat(bytes(26), pad2(len(encU32(h.Vals, 0))), encU32(h.Vals, 0)), cat(bytes(66), pad2(len(encS64Delta(h.Refs, 0, 0))), encS64Delta(h.Refs, 0, 0))))
  use vRound(cat(cat(empty(bytes)), bytes(8)), u64(h.ID), cat(empty(bytes), cat(bytes(18), pad2(len(encU32(h.Keys, 0))), encU32(h.Keys, 0)), cat(bytes(26), pad2(len(encU32(h.Vals, 0))), encU32(h.Vals, 0)), cat(bytes(66), pad2(len(encS64Delta(h.Refs, 0, 0))), encS64Delta(h.Refs, 0, 0))), 0)
  use tag(cat(empty(bytes), cat(bytes(8), varint(u64(h.ID)))), 18, cat(pad2(len(encU32(h.Keys, 0))), encU32(h.Keys, 0), cat(bytes(26), pad2(len(encU32(h.Vals, 0))), encU32(h.Vals, 0)), cat(bytes(66), pad2(len(encS64Delta(h.Refs, 0, 0))), encS64Delta(h.Refs, 0, 0))))
  use padRound2(cat(cat(empty(bytes), cat(bytes(8), varint(u64(h.ID)))), bytes(18)), encU32(h.Keys, 0), cat(empty(bytes), cat(bytes(26), pad2(len(encU32(h.Vals, 0))), encU32(h.Vals, 0)), cat(bytes(66), pad2(len(encS64Delta(h.Refs, 0, 0))), encS64Delta(h.Refs, 0, 0))))
  use tag(cat(empty(bytes), cat(bytes(8), varint(u64(h.ID))), cat(bytes(18), pad2(len(encU32(h.Keys, 0))), encU32(h.Keys, 0))), 26, cat(pad2(len(encU32(h.Vals, 0))), encU32(h.Vals, 0), cat(bytes(66), pad2(len(encS64Delta(h.Refs, 0, 0))), encS64Delta(h.Refs, 0, 0))))
  use padRound2(cat(cat(empty(bytes), cat(bytes(8), varint(u64(h.ID))), cat(bytes(18), pad2(len(encU32(h.Keys, 0))), encU32(h.Keys, 0))), bytes(26)), encU32(h.Vals, 0), cat(empty(bytes), cat(bytes(66), pad2(len(encS64Delta(h.Refs, 0, 0))), encS64Delta(h.Refs, 0, 0))))
  use tag(cat(empty(bytes), cat(bytes(8), varint(u64(h.ID))), cat(bytes(18), pad2(len(encU32(h.Keys, 0))), encU32(h.Keys, 0)), cat(bytes(26), pad2(len(encU32(h.Vals, 0))), encU32(h.Vals, 0))), 66, cat(pad2(len(encS64Delta(h.Refs, 0, 0))), encS64Delta(h.Refs, 0, 0)))
  use padRound2(cat(cat(empty(bytes), cat(bytes(8), varint(u64(h.ID))), cat(bytes(18), pad2(len(encU32(h.Keys, 0))), encU32(h.Keys, 0)), cat(bytes(26), pad2(len(encU32(h.Vals, 0))), encU32(h.Vals, 0))), bytes(66)), encS64Delta(h.Refs, 0, 0), cat(empty(bytes)))

# ---- Relation
fn okR(b bytes, i int) bool decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b), true, isv(b, i) && let(id, vval(b, i), let(j, vend(b, i), ite(id == 18 || id == 26 || id == 66 || id == 74 || id == 82, lenok(b, j) && allv(lfield(b, j), 0) && okR(b, lend(b, j)), ite(id == 34, lenok(b, j) && okR(b, lend(b, j)), ite(id == 8, isv(b, j) && okR(b, vend(b, j)), false))))))
fn rdR(b bytes, i int, h t.Relation) t.Relation decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b), h, let(id, vval(b, i), let(j, vend(b, i), ite(id == 18, rdR(b, lend(b, j), with(h, Keys, decU32(lfield(b, j), 0))), ite(id == 26, rdR(b, lend(b, j), with(h, Vals, decU32(lfield(b, j), 0))), ite(id == 66, rdR(b, lend(b, j), with(h, RolesSID, decI32(lfield(b, j), 0))), ite(id == 74, rdR(b, lend(b, j), with(h, MemIDs, decS64Delta(lfield(b, j), 0, 0))), ite(id == 82, rdR(b, lend(b, j), with(h, MemberType, decU64(lfield(b, j), 0))), ite(id == 34, rdR(b, lend(b, j), h), ite(id == 8, rdR(b, vend(b, j), with(h, ID, i64(vval(b, j)))), h))))))))))

contract t.ReadRelation(buf, r)
  props C04
  safe okR(buf, 0)
  ensures refusal: okR(buf, 0)
  sets r = rdR(buf, 0, r)
  loop 0
    inv okR(buf, next) == okR(buf, 0)
    inv rdR(buf, next, r) == rdR(buf, 0, old(r))
    inv 0 <= next && next <= len(buf)

fn wrR(h t.Relation) bytes decreases 0 = cat(varint(8), varint(u64(h.ID)), emb2(2, encU32(h.Keys, 0)), emb2(3, encU32(h.Vals, 0)), emb3(8, encI32(h.RolesSID, 0)), emb3(9, encS64Delta(h.MemIDs, 0, 0)), emb3(10, encU64(h.MemberType, 0)))
fn fitR(h t.Relation) bool decreases 0 = len(encU32(h.Keys, 0)) < 16384 && len(encU32(h.Vals, 0)) < 16384 && len(encI32(h.RolesSID, 0)) < 2097152 && len(encS64Delta(h.MemIDs, 0, 0)) < 2097152 && len(encU64(h.MemberType, 0)) < 2097152

contract t.Relation.Write(r, buf)
  props C04
  safe fitR(r)
  ensures refusal: fitR(r)
  appends buf = wrR(r)

lemma roundR(h t.Relation)
  props C04
  requires fitR(h)
  ensures okR(wrR(h), 0)
  ensures rdR(wrR(h), 0, zero("t.Relation")) == h
  unfold wrR(h)
  unfold fitR(h)
  use roundU32(empty(bytes), h.Keys, 0)
  use roundU32(empty(bytes), h.Vals, 0)
  use roundI32(empty(bytes), h.RolesSID, 0)
  use roundS64Delta(empty(bytes), h.MemIDs, 0, 0)
  use roundU64(empty(bytes), h.MemberType, 0)
  use tag(cat(empty(bytes)), 8, cat(varint(u64(h.ID)), cat(bytes(18), pad2(len(encU32(h.Keys, 0))), encU32(h.Keys, 0)), cat(bytes(26), pad2(len(encU32(h.Vals, 0))), encU32(h.Vals, 0)), cat(bytes(66), pad3(len(encI32(h.RolesSID, 0))), encI32(h.RolesSID, 0)), cat(bytes(74), pad3(len(encS64Delta(h.MemIDs, 0, 0))), encS64Delta(h.MemIDs, 0, 0)), cat(bytes(82), pad3(len(encU64(h.MemberType, 0))), encU64(h.MemberType, 0))))
  use vRound(cat(cat(empty(bytes)), bytes(8)), u64(h.ID), cat(empty(bytes), cat(bytes(18), pad2(len(encU32(h.Keys, 0))), encU32(h.Keys, 0)), cat(bytes(26), pad2(len(encU32(h.Vals, 0))), encU32(h.Vals, 0)), cat(bytes(66), pad3(len(encI32(h.RolesSID, 0))), encI32(h.RolesSID, 0)), cat(bytes(74), pad3(len(encS64Delta(h.MemIDs, 0, 0))), encS64Delta(h.MemIDs, 0, 0)), cat(bytes(82), pad3(len(encU64(h.MemberType, 0))), encU64(h.MemberType, 0))), 0)
  use tag(cat(empty(bytes), cat(bytes(8), varint(u64(h.ID)))), 18, cat(pad2(len(encU32(h.Keys, 0))), encU32(h.Keys, 0), cat(bytes(26), pad2(len(encU32(h.Vals, 0))), encU32(h.Vals, 0)), cat(bytes(66), pad3(len(encI32(h.RolesSID, 0))), encI32(h.RolesSID, 0)), cat(bytes(74), pad3(len(encS64Delta(h.MemIDs, 0, 0))), encS64Delta(h.MemIDs, 0, 0)), cat(bytes(82), pad3(len(encU64(h.MemberType, 0))), encU64(h.MemberType, 0))))
  use padRound2(cat(cat(empty(bytes), cat(bytes(8), varint(u64(h.ID)))), bytes(18)), encU32(h.Keys, 0), cat(empty(bytes), cat(bytes(26), pad2(len(encU32(h.Vals, 0))), encU32(h.Vals, 0)), cat(bytes(66), pad3(len(encI32(h.RolesSID, 0))), encI32(h.RolesSID, 0)), cat(bytes(74), pad3(len(encS64Delta(h.MemIDs, 0, 0))), encS64Delta(h.MemIDs, 0, 0)), cat(bytes(82), pad3(len(encU64(h.MemberType, 0))), encU64(h.MemberType, 0))))
  use tag(cat(empty(bytes), cat(bytes(8), varint(u64(h.ID))), cat(bytes(18), pad2(len(encU32(h.Keys, 0))), encU32(h.Keys, 0))), 26, cat(pad2(len(encU32(h.Vals, 0))), encU32(h.Vals, 0), cat(bytes(66), pad3(len(encI32(h.RolesSID, 0))), encI32(h.RolesSID, 0)), cat(bytes(74), pad3(len(encS64Delta(h.MemIDs, 0, 0))), encS64Delta(h.MemIDs, 0, 0)), cat(bytes(82), pad3(len(encU64(h.MemberType, 0))), encU64(h.MemberType, 0))))
  use padRound2(cat(cat(empty(bytes), cat(bytes(8), varint(u64(h.ID))), cat(bytes(18), pad2(len(encU32(h.Keys, 0))), encU32(h.Keys, 0))), bytes(26)), encU32(h.Vals, 0), cat(empty(bytes), cat(bytes(66), pad3(len(encI32(h.RolesSID, 0))), encI32(h.RolesSID, 0)), cat(bytes(74), pad3(len(encS64Delta(h.MemIDs, 0, 0))), encS64Delta(h.MemIDs, 0, 0)), cat(bytes(82), pad3(len(encU64(h.MemberType, 0))), encU64(h.MemberType, 0))))
  use tag(cat(empty(bytes), cat(bytes(8), varint(u64(h.ID))), cat(bytes(18), pad2(len(encU32(h.Keys, 0))), encU32(h.Keys, 0)), cat(bytes(26), pad2(len(encU32(h.Vals, 0))), encU32(h.Vals, 0))), 66, cat(pad3(len(encI32(h.RolesSID, 0))), encI32(h.RolesSID, 0), cat(bytes(74), pad3(len(encS64Delta(h.MemIDs, 0, 0))), encS64Delta(h.MemIDs, 0, 0)), cat(bytes(82), pad3(len(encU64(h.MemberType, 0))), encU64(h.MemberType, 0))))
  use padRound3(cat(cat(empty(bytes), cat(bytes(8), varint(u64(h.ID))), cat(bytes(18), pad2(len(encU32(h.Keys, 0))), encU32(h.Keys, 0)), cat(bytes(26), pad2(len(encU32(h.Vals, 0))), encU32(h.Vals, 0))), bytes(66)), encI32(h.RolesSID, 0), cat(empty(bytes), cat(bytes(74), pad3(len(encS64Delta(h.MemIDs, 0, 0))), encS64Delta(h.MemIDs, 0, 0)), cat(bytes(82), pad3(len(encU64(h.MemberType, 0))), encU64(h.MemberType, 0))))
  use tag(cat(empty(bytes), cat(bytes(8), varint(u64(h.ID))), cat(bytes(18), pad2(len(encU32(h.Keys, 0))), encU32(h.Keys, 0)), cat(bytes(26), pad2(len(encU32(h.Vals, 0))), encU32(h.Vals, 0)), cat(bytes(66), pad3(len(encI32(h.RolesSID, 0))), encI32(h.RolesSID, 0))), 74, cat(pad3(len(encS64Delta(h.MemIDs, 0, 0))), encS64Delta(h.MemIDs, 0, 0), cat(bytes(82), pad3(len(encU64(h.MemberType, 0))), encU64(h.MemberType, 0))))
  use padRound3(cat(cat(empty(bytes), cat(bytes(8), varint(u64(h.ID))), cat(bytes(18), pad2(len(encU32(h.Keys, 0))), encU32(h.Keys, 0)), cat(bytes(26), pad2(len(encU32(h.Vals, 0))), encU32(h.Vals, 0)), cat(bytes(66), pad3(len(encI32(h.RolesSID, 0))), encI32(h.RolesSID, 0))), bytes(74)), encS64Delta(h.MemIDs, 0, 0), cat(empty(bytes), cat(bytes(82), pad3(len(encU64(h.MemberType, 0))), encU64(h.MemberType, 0))))
  use tag(cat(empty(bytes), cat(bytes(8), varint(u64(h.ID))), cat(bytes(18), pad2(len(encU32(h.Keys, 0))), encU32(h.Keys, 0)), cat(bytes(26), pad2(len(encU32(h.Vals, 0))), encU32(h.Vals, 0)), cat(bytes(66), pad3(len(encI32(h.RolesSID, 0))), encI32(h.RolesSID, 0)), cat(bytes(74), pad3(len(encS64Delta(h.MemIDs, 0, 0))), encS64Delta(h.MemIDs, 0, 0))), 82, cat(pad3(len(encU64(h.MemberType, 0))), encU64(h.MemberType, 0)))
  use padRound3(cat(cat(empty(bytes), cat(bytes(8), varint(u64(h.ID))), cat(bytes(18), pad2(len(encU32(h.Keys, 0))), encU32(h.Keys, 0)), cat(bytes(26), pad2(len(encU32(h.Vals, 0))), encU32(h.Vals, 0)), cat(bytes(66), pad3(len(encI32(h.RolesSID, 0))), encI32(h.RolesSID, 0)), cat(bytes(74), pad3(len(encS64Delta(h.MemIDs, 0, 0))), encS64Delta(h.MemIDs, 0, 0))), bytes(82)), encU64(h.MemberType, 0), cat(empty(bytes)))

# ---- PrimitiveGroup
nonil t.PrimitiveGroup.RawWays t.PrimitiveGroup.RawRelations
fn okPG(b bytes, i int, p t.PBReader) bool decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b), true, isv(b, i) && let(id, vval(b, i), let(j, vend(b, i), (id == 18 || id == 26 || id == 34 || id == 42) && lenok(b, j) && imp(id == 18 && !p.SkipDenseNodes, okD(lfield(b, j), 0)) && imp(id == 26 && !p.SkipWays, okW(lfield(b, j), 0)) && imp(id == 34 && !p.SkipRelations, okR(lfield(b, j), 0)) && okPG(b, lend(b, j), p))))
fn rdPG(b bytes, i int, p t.PBReader, h t.PrimitiveGroup) t.PrimitiveGroup decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b), h, let(id, vval(b, i), let(j, vend(b, i), ite(id == 18, rdPG(b, lend(b, j), p, ite(p.SkipDenseNodes, with(h, RawDense, sl(lfield(b, j))), with(h, Dense, some(rdD(lfield(b, j), 0, zero("t.DenseNodes")))))), ite(id == 26, rdPG(b, lend(b, j), p, ite(p.SkipWays, with(h, RawWays, push(h.RawWays, lfield(b, j))), with(h, Ways, sl(push(h.Ways, rdW(lfield(b, j), 0, zero("t.Way"))))))), ite(id == 34, rdPG(b, lend(b, j), p, ite(p.SkipRelations, with(h, RawRelations, push(h.RawRelations, lfield(b, j))), with(h, Relations, sl(push(h.Relations, rdR(lfield(b, j), 0, zero("t.Relation"))))))), rdPG(b, lend(b, j), p, h)))))))

contract t.PBReader.ReadPrimitiveGroup(pbr, buf, pg)
  props C04 C05
  safe okPG(buf, 0, pbr)
  ensures refusal: okPG(buf, 0, pbr)
  sets pg = rdPG(buf, 0, pbr, pg)
  loop 0
    inv okPG(buf, next, pbr) == okPG(buf, 0, pbr)
    inv rdPG(buf, next, pbr, pg) == rdPG(buf, 0, pbr, old(pg))
    inv 0 <= next && next <= len(buf)

fn wrWs(xs seq(t.Way), i int) bytes decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, empty(bytes), cat(emb2(3, wrW(xs[i])), wrWs(xs, i+1)))
fn fitWs(xs seq(t.Way), i int) bool decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, true, fitW(xs[i]) && len(wrW(xs[i])) < 16384 && fitWs(xs, i+1))
fn wrRs(xs seq(t.Relation), i int) bytes decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, empty(bytes), cat(emb3(4, wrR(xs[i])), wrRs(xs, i+1)))
fn fitRs(xs seq(t.Relation), i int) bool decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, true, fitR(xs[i]) && len(wrR(xs[i])) < 2097152 && fitRs(xs, i+1))
fn wrRaw(id int, xs seq(bytes), i int) bytes decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, empty(bytes), cat(varint(8*id+2), lenc(xs[i]), wrRaw(id, xs, i+1)))
fn wrPG1(g t.PrimitiveGroup) bytes decreases 0 = ite(isnil(g.Dense), ite(isnil(g.RawDense), empty(bytes), cat(varint(18), lenc(g.RawDense))), emb4(2, wrD(g.Dense)))
fn wrPG2(g t.PrimitiveGroup) bytes decreases 0 = ite(isnil(g.Ways), wrRaw(3, g.RawWays, 0), wrWs(g.Ways, 0))
fn wrPG3(g t.PrimitiveGroup) bytes decreases 0 = ite(isnil(g.Relations), wrRaw(4, g.RawRelations, 0), wrRs(g.Relations, 0))
fn wrPG(g t.PrimitiveGroup) bytes = cat(wrPG1(g), wrPG2(g), wrPG3(g))
fn fitPG(g t.PrimitiveGroup) bool decreases 0 = imp(!isnil(g.Dense), fitD(g.Dense) && len(wrD(g.Dense)) < 268435456) && fitWs(g.Ways, 0) && fitRs(g.Relations, 0)

contract t.PrimitiveGroup.Write(pg, buf)
  props C04 C05 C17 C18
  safe fitPG(pg)
  ensures refusal: fitPG(pg)
  appends buf = wrPG(pg)
  loop 0
    inv cat(buf, wrWs(pg.Ways, iter)) == cat(begin(buf), wrWs(pg.Ways, 0))
    inv fitWs(pg.Ways, iter) == fitWs(pg.Ways, 0)
  loop 1
    inv cat(buf, wrRaw(3, pg.RawWays, iter)) == cat(begin(buf), wrRaw(3, pg.RawWays, 0))
  loop 2
    inv cat(buf, wrRs(pg.Relations, iter)) == cat(begin(buf), wrRs(pg.Relations, 0))
    inv fitRs(pg.Relations, iter) == fitRs(pg.Relations, 0)
  loop 3
    inv cat(buf, wrRaw(4, pg.RawRelations, iter)) == cat(begin(buf), wrRaw(4, pg.RawRelations, 0))

lemma stepWs(A bytes, xs seq(t.Way), i int, B bytes, p t.PBReader, h t.PrimitiveGroup)
  props C04 C05
  requires 0 <= i && i <= len(xs) && fitWs(xs, i) && !p.SkipWays
  ensures okPG(cat(A, wrWs(xs, i), B), len(A), p) == okPG(cat(A, wrWs(xs, i), B), len(A)+len(wrWs(xs, i)), p)
  ensures rdPG(cat(A, wrWs(xs, i), B), len(A), p, h) == rdPG(cat(A, wrWs(xs, i), B), len(A)+len(wrWs(xs, i)), p, ite(i < len(xs), with(h, Ways, sl(cat(h.Ways, xs[i:]))), h))
  split i < len(xs)
  unfold wrWs(xs, i)
  unfold fitWs(xs, i)
  use imp(i < len(xs), tag(A, 26, cat(pad2(len(wrW(xs[i]))), wrW(xs[i]), wrWs(xs, i+1), B)))
  use imp(i < len(xs), padRound2(cat(A, bytes(26)), wrW(xs[i]), cat(wrWs(xs, i+1), B)))
  use imp(i < len(xs), roundW(xs[i]))
  use imp(i < len(xs), stepWs(cat(A, bytes(26), pad2(len(wrW(xs[i]))), wrW(xs[i])), xs, i+1, B, p, with(h, Ways, sl(push(h.Ways, xs[i])))))
  decreases len(xs) - i

lemma stepRs(A bytes, xs seq(t.Relation), i int, B bytes, p t.PBReader, h t.PrimitiveGroup)
  props C04 C05
  requires 0 <= i && i <= len(xs) && fitRs(xs, i) && !p.SkipRelations
  ensures okPG(cat(A, wrRs(xs, i), B), len(A), p) == okPG(cat(A, wrRs(xs, i), B), len(A)+len(wrRs(xs, i)), p)
  ensures rdPG(cat(A, wrRs(xs, i), B), len(A), p, h) == rdPG(cat(A, wrRs(xs, i), B), len(A)+len(wrRs(xs, i)), p, ite(i < len(xs), with(h, Relations, sl(cat(h.Relations, xs[i:]))), h))
  split i < len(xs)
  unfold wrRs(xs, i)
  unfold fitRs(xs, i)
  use imp(i < len(xs), tag(A, 34, cat(pad3(len(wrR(xs[i]))), wrR(xs[i]), wrRs(xs, i+1), B)))
  use imp(i < len(xs), padRound3(cat(A, bytes(34)), wrR(xs[i]), cat(wrRs(xs, i+1), B)))
  use imp(i < len(xs), roundR(xs[i]))
  use imp(i < len(xs), stepRs(cat(A, bytes(34), pad3(len(wrR(xs[i]))), wrR(xs[i])), xs, i+1, B, p, with(h, Relations, sl(push(h.Relations, xs[i])))))
  decreases len(xs) - i

fn allLen(xs seq(bytes), i int) bool decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs), true, len(xs[i]) <= MAXI && allLen(xs, i+1))
lemma stepRawW(A bytes, xs seq(bytes), i int, B bytes, p t.PBReader, h t.PrimitiveGroup)
  props C04 C05
  requires 0 <= i && i <= len(xs) && allLen(xs, i) && p.SkipWays
  ensures okPG(cat(A, wrRaw(3, xs, i), B), len(A), p) == okPG(cat(A, wrRaw(3, xs, i), B), len(A)+len(wrRaw(3, xs, i)), p)
  ensures rdPG(cat(A, wrRaw(3, xs, i), B), len(A), p, h) == rdPG(cat(A, wrRaw(3, xs, i), B), len(A)+len(wrRaw(3, xs, i)), p, ite(i < len(xs), with(h, RawWays, cat(h.RawWays, xs[i:])), h))
  split i < len(xs)
  unfold wrRaw(3, xs, i)
  unfold allLen(xs, i)
  use imp(i < len(xs), tag(A, 26, cat(lenc(xs[i]), wrRaw(3, xs, i+1), B)))
  use imp(i < len(xs), lenRound(cat(A, bytes(26)), xs[i], cat(wrRaw(3, xs, i+1), B)))
  use imp(i < len(xs), stepRawW(cat(A, bytes(26), lenc(xs[i])), xs, i+1, B, p, with(h, RawWays, push(h.RawWays, xs[i]))))
  decreases len(xs) - i

lemma stepRawR(A bytes, xs seq(bytes), i int, B bytes, p t.PBReader, h t.PrimitiveGroup)
  props C04 C05
  requires 0 <= i && i <= len(xs) && allLen(xs, i) && p.SkipRelations
  ensures okPG(cat(A, wrRaw(4, xs, i), B), len(A), p) == okPG(cat(A, wrRaw(4, xs, i), B), len(A)+len(wrRaw(4, xs, i)), p)
  ensures rdPG(cat(A, wrRaw(4, xs, i), B), len(A), p, h) == rdPG(cat(A, wrRaw(4, xs, i), B), len(A)+len(wrRaw(4, xs, i)), p, ite(i < len(xs), with(h, RawRelations, cat(h.RawRelations, xs[i:])), h))
  split i < len(xs)
  unfold wrRaw(4, xs, i)
  unfold allLen(xs, i)
  use imp(i < len(xs), tag(A, 34, cat(lenc(xs[i]), wrRaw(4, xs, i+1), B)))
  use imp(i < len(xs), lenRound(cat(A, bytes(34)), xs[i], cat(wrRaw(4, xs, i+1), B)))
  use imp(i < len(xs), stepRawR(cat(A, bytes(34), lenc(xs[i])), xs, i+1, B, p, with(h, RawRelations, push(h.RawRelations, xs[i]))))
  decreases len(xs) - i

# groups as reading produces them under the flags p
fn canD(g t.PrimitiveGroup, p t.PBReader) bool = ite(isnil(g.Dense), g.Dense == zero("t.PrimitiveGroup").Dense, g.RawDense == zero("t.PrimitiveGroup").RawDense && !p.SkipDenseNodes && g.Dense == some(with(zero("t.DenseNodes"), Id, g.Dense.Id, Lat, g.Dense.Lat, Lon, g.Dense.Lon, KeyVals, g.Dense.KeyVals)) && fitD(g.Dense) && len(wrD(g.Dense)) < 268435456) && ite(isnil(g.RawDense), g.RawDense == zero("t.PrimitiveGroup").RawDense, p.SkipDenseNodes && len(g.RawDense) <= MAXI)
fn canW(g t.PrimitiveGroup, p t.PBReader) bool = ite(isnil(g.Ways), g.Ways == zero("t.PrimitiveGroup").Ways && imp(len(g.RawWays) > 0, p.SkipWays) && allLen(g.RawWays, 0), len(g.Ways) > 0 && len(g.RawWays) == 0 && !p.SkipWays && fitWs(g.Ways, 0))
fn canR(g t.PrimitiveGroup, p t.PBReader) bool = ite(isnil(g.Relations), g.Relations == zero("t.PrimitiveGroup").Relations && imp(len(g.RawRelations) > 0, p.SkipRelations) && allLen(g.RawRelations, 0), len(g.Relations) > 0 && len(g.RawRelations) == 0 && !p.SkipRelations && fitRs(g.Relations, 0))

lemma secD(A bytes, g t.PrimitiveGroup, B bytes, p t.PBReader, h t.PrimitiveGroup)
  props C04 C05
  requires canD(g, p) && h.Dense == zero("t.PrimitiveGroup").Dense && h.RawDense == zero("t.PrimitiveGroup").RawDense
  ensures okPG(cat(A, wrPG1(g), B), len(A), p) == okPG(cat(A, wrPG1(g), B), len(A)+len(wrPG1(g)), p)
  ensures rdPG(cat(A, wrPG1(g), B), len(A), p, h) == rdPG(cat(A, wrPG1(g), B), len(A)+len(wrPG1(g)), p, with(h, Dense, g.Dense, RawDense, g.RawDense))
  split isnil(g.Dense)
  split isnil(g.RawDense)
  unfold wrPG1(g)
  use imp(!isnil(g.Dense), tag(A, 18, cat(pad4(len(wrD(g.Dense))), wrD(g.Dense), B)))
  use imp(!isnil(g.Dense), padRound4(cat(A, bytes(18)), wrD(g.Dense), B))
  use imp(!isnil(g.Dense), roundD(g.Dense))
  use imp(isnil(g.Dense) && !isnil(g.RawDense), tag(A, 18, cat(lenc(g.RawDense), B)))
  use imp(isnil(g.Dense) && !isnil(g.RawDense), lenRound(cat(A, bytes(18)), els(g.RawDense), B))

lemma secW(A bytes, g t.PrimitiveGroup, B bytes, p t.PBReader, h t.PrimitiveGroup)
  props C04 C05
  requires canW(g, p) && h.Ways == zero("t.PrimitiveGroup").Ways && len(h.RawWays) == 0
  ensures okPG(cat(A, wrPG2(g), B), len(A), p) == okPG(cat(A, wrPG2(g), B), len(A)+len(wrPG2(g)), p)
  ensures rdPG(cat(A, wrPG2(g), B), len(A), p, h) == rdPG(cat(A, wrPG2(g), B), len(A)+len(wrPG2(g)), p, with(h, Ways, g.Ways, RawWays, g.RawWays))
  split isnil(g.Ways)
  split len(g.RawWays) == 0
  unfold wrPG2(g)
  unfold wrRaw(3, g.RawWays, 0)
  use imp(!isnil(g.Ways), stepWs(A, els(g.Ways), 0, B, p, h))
  use imp(isnil(g.Ways) && len(g.RawWays) > 0, stepRawW(A, g.RawWays, 0, B, p, h))

lemma secR(A bytes, g t.PrimitiveGroup, B bytes, p t.PBReader, h t.PrimitiveGroup)
  props C04 C05
  requires canR(g, p) && h.Relations == zero("t.PrimitiveGroup").Relations && len(h.RawRelations) == 0
  ensures okPG(cat(A, wrPG3(g), B), len(A), p) == okPG(cat(A, wrPG3(g), B), len(A)+len(wrPG3(g)), p)
  ensures rdPG(cat(A, wrPG3(g), B), len(A), p, h) == rdPG(cat(A, wrPG3(g), B), len(A)+len(wrPG3(g)), p, with(h, Relations, g.Relations, RawRelations, g.RawRelations))
  split isnil(g.Relations)
  split len(g.RawRelations) == 0
  unfold wrPG3(g)
  unfold wrRaw(4, g.RawRelations, 0)
  use imp(!isnil(g.Relations), stepRs(A, els(g.Relations), 0, B, p, h))
  use imp(isnil(g.Relations) && len(g.RawRelations) > 0, stepRawR(A, g.RawRelations, 0, B, p, h))

# sections are read back as written, decoded or not
lemma roundPG(g t.PrimitiveGroup, p t.PBReader)
  props C04 C05
  requires canD(g, p) && canW(g, p) && canR(g, p)
  ensures okPG(wrPG(g), 0, p)
  ensures rdPG(wrPG(g), 0, p, zero("t.PrimitiveGroup")) == g
  use secD(empty(bytes), g, cat(wrPG2(g), wrPG3(g)), p, zero("t.PrimitiveGroup"))
  use secW(wrPG1(g), g, wrPG3(g), p, with(zero("t.PrimitiveGroup"), Dense, g.Dense, RawDense, g.RawDense))
  use secR(cat(wrPG1(g), wrPG2(g)), g, empty(bytes), p, with(zero("t.PrimitiveGroup"), Dense, g.Dense, RawDense, g.RawDense, Ways, g.Ways, RawWays, g.RawWays))

# ---- PrimitiveBlock
nonil t.PrimitiveBlock.PrimitiveGroup
const PB2 = 268435456
fn okPB(b bytes, i int, p t.PBReader) bool decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b), true, isv(b, i) && let(id, vval(b, i), let(j, vend(b, i), ite(id == 10 || id == 18, lenok(b, j) && imp(id == 10 && !p.SkipStringTable, okST(lfield(b, j), 0)) && imp(id == 18, okPG(lfield(b, j), 0, p)) && okPB(b, lend(b, j), p), (id == 136 || id == 144 || id == 152 || id == 160) && isv(b, j) && okPB(b, vend(b, j), p)))))
fn rdPB(b bytes, i int, p t.PBReader, h t.PrimitiveBlock) t.PrimitiveBlock decreases ite(i >= len(b), 0, len(b)-i) = ite(i >= len(b), h, let(id, vval(b, i), let(j, vend(b, i), ite(id == 10, rdPB(b, lend(b, j), p, ite(p.SkipStringTable, with(h, StringTableRaw, sl(lfield(b, j))), with(h, StringTable, some(mk("t.StringTable", rdST(lfield(b, j), 0)))))), ite(id == 18, rdPB(b, lend(b, j), p, with(h, PrimitiveGroup, push(h.PrimitiveGroup, rdPG(lfield(b, j), 0, p, zero("t.PrimitiveGroup"))))), ite(id == 136, rdPB(b, vend(b, j), p, with(h, Granularity, i32(vval(b, j)))), ite(id == 144, rdPB(b, vend(b, j), p, with(h, DateGranularity, i32(vval(b, j)))), ite(id == 152, rdPB(b, vend(b, j), p, with(h, LatOffset, i64(vval(b, j)))), rdPB(b, vend(b, j), p, with(h, LonOffset, i64(vval(b, j))))))))))))

contract t.PBReader.ReadPrimitiveBlock(pbr, buf, pblk)
  props C04 C05
  safe okPB(buf, 0, pbr)
  ensures refusal: okPB(buf, 0, pbr)
  sets pblk = rdPB(buf, 0, pbr, with(pblk, Granularity, 100, DateGranularity, 1000))
  loop 0
    inv okPB(buf, next, pbr) == okPB(buf, 0, pbr)
    inv rdPB(buf, next, pbr, pblk) == rdPB(buf, 0, pbr, with(old(pblk), Granularity, 100, DateGranularity, 1000))
    inv 0 <= next && next <= len(buf)

fn wrPGs(xs seq(t.PrimitiveGroup), i int) bytes decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, empty(bytes), cat(emb4(2, wrPG(xs[i])), wrPGs(xs, i+1)))
fn fitPGs(xs seq(t.PrimitiveGroup), i int) bool decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, true, fitPG(xs[i]) && len(wrPG(xs[i])) < PB2 && fitPGs(xs, i+1))
fn wrPB1(h t.PrimitiveBlock) bytes decreases 0 = ite(isnil(h.StringTable), ite(isnil(h.StringTableRaw), empty(bytes), cat(bytes(10), lenc(h.StringTableRaw))), emb4(1, wrST(h.StringTable.S, 0)))
fn wrPB3(h t.PrimitiveBlock) bytes decreases 0 = ite(h.Granularity == 100, empty(bytes), cat(varint(136), varint(u64(h.Granularity))))
fn wrPB4(h t.PrimitiveBlock) bytes decreases 0 = ite(h.DateGranularity == 1000, empty(bytes), cat(varint(144), varint(u64(h.DateGranularity))))
fn wrPB5(h t.PrimitiveBlock) bytes decreases 0 = ite(h.LatOffset == 0, empty(bytes), cat(varint(152), varint(u64(h.LatOffset))))
fn wrPB6(h t.PrimitiveBlock) bytes decreases 0 = ite(h.LonOffset == 0, empty(bytes), cat(varint(160), varint(u64(h.LonOffset))))
fn wrPB(h t.PrimitiveBlock) bytes = cat(wrPB1(h), wrPGs(h.PrimitiveGroup, 0), wrPB3(h), wrPB4(h), wrPB5(h), wrPB6(h))
fn fitPB(h t.PrimitiveBlock) bool decreases 0 = imp(!isnil(h.StringTable), len(wrST(h.StringTable.S, 0)) < PB2) && fitPGs(h.PrimitiveGroup, 0)

contract t.PrimitiveBlock.Write(pblk, buf)
  props C04 C05 C16 C17 C18
  safe fitPB(pblk)
  ensures refusal: fitPB(pblk)
  appends buf = wrPB(pblk)
  loop 0
    inv cat(buf, wrPGs(pblk.PrimitiveGroup, iter)) == cat(begin(buf), wrPGs(pblk.PrimitiveGroup, 0))
    inv fitPGs(pblk.PrimitiveGroup, iter) == fitPGs(pblk.PrimitiveGroup, 0)

fn canPGs(xs seq(t.PrimitiveGroup), i int, p t.PBReader) bool decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, true, canD(xs[i], p) && canW(xs[i], p) && canR(xs[i], p) && len(wrPG(xs[i])) < PB2 && canPGs(xs, i+1, p))
lemma stepPGs(A bytes, xs seq(t.PrimitiveGroup), i int, B bytes, p t.PBReader, h t.PrimitiveBlock)
  props C04 C05
  requires 0 <= i && i <= len(xs) && canPGs(xs, i, p)
  ensures okPB(cat(A, wrPGs(xs, i), B), len(A), p) == okPB(cat(A, wrPGs(xs, i), B), len(A)+len(wrPGs(xs, i)), p)
  ensures rdPB(cat(A, wrPGs(xs, i), B), len(A), p, h) == rdPB(cat(A, wrPGs(xs, i), B), len(A)+len(wrPGs(xs, i)), p, with(h, PrimitiveGroup, cat(h.PrimitiveGroup, xs[i:])))
  split i < len(xs)
  unfold wrPGs(xs, i)
  unfold canPGs(xs, i, p)
  use imp(i < len(xs), tag(A, 18, cat(pad4(len(wrPG(xs[i]))), wrPG(xs[i]), wrPGs(xs, i+1), B)))
  use imp(i < len(xs), padRound4(cat(A, bytes(18)), wrPG(xs[i]), cat(wrPGs(xs, i+1), B)))
  use imp(i < len(xs), roundPG(xs[i], p))
  use imp(i < len(xs), stepPGs(cat(A, bytes(18), pad4(len(wrPG(xs[i]))), wrPG(xs[i])), xs, i+1, B, p, with(h, PrimitiveGroup, push(h.PrimitiveGroup, xs[i]))))
  decreases len(xs) - i

fn canS(h t.PrimitiveBlock, p t.PBReader) bool = ite(isnil(h.StringTable), h.StringTable == zero("t.PrimitiveBlock").StringTable, h.StringTableRaw == zero("t.PrimitiveBlock").StringTableRaw && !p.SkipStringTable && h.StringTable == some(mk("t.StringTable", h.StringTable.S)) && allMAXI(h.StringTable.S, 0) && len(wrST(h.StringTable.S, 0)) < PB2) && ite(isnil(h.StringTableRaw), h.StringTableRaw == zero("t.PrimitiveBlock").StringTableRaw, p.SkipStringTable && len(h.StringTableRaw) <= MAXI)
lemma secS(g t.PrimitiveBlock, B bytes, p t.PBReader, h t.PrimitiveBlock)
  props C04 C05
  requires canS(g, p) && h.StringTable == zero("t.PrimitiveBlock").StringTable && h.StringTableRaw == zero("t.PrimitiveBlock").StringTableRaw
  ensures okPB(cat(wrPB1(g), B), 0, p) == okPB(cat(wrPB1(g), B), len(wrPB1(g)), p)
  ensures rdPB(cat(wrPB1(g), B), 0, p, h) == rdPB(cat(wrPB1(g), B), len(wrPB1(g)), p, with(h, StringTable, g.StringTable, StringTableRaw, g.StringTableRaw))
  split isnil(g.StringTable)
  split isnil(g.StringTableRaw)
  unfold wrPB1(g)
  use imp(!isnil(g.StringTable), tag(empty(bytes), 10, cat(pad4(len(wrST(g.StringTable.S, 0))), wrST(g.StringTable.S, 0), B)))
  use imp(!isnil(g.StringTable), padRound4(bytes(10), wrST(g.StringTable.S, 0), B))
  use imp(!isnil(g.StringTable), roundST(empty(bytes), g.StringTable.S, 0))
  use imp(isnil(g.StringTable) && !isnil(g.StringTableRaw), tag(empty(bytes), 10, cat(lenc(g.StringTableRaw), B)))
  use imp(isnil(g.StringTable) && !isnil(g.StringTableRaw), lenRound(bytes(10), els(g.StringTableRaw), B))

lemma secGranularity(A bytes, g t.PrimitiveBlock, B bytes, p t.PBReader, h t.PrimitiveBlock)
  props C04 C05
  requires h.Granularity == 100
  ensures okPB(cat(A, wrPB3(g), B), len(A), p) == okPB(cat(A, wrPB3(g), B), len(A)+len(wrPB3(g)), p)
  ensures rdPB(cat(A, wrPB3(g), B), len(A), p, h) == rdPB(cat(A, wrPB3(g), B), len(A)+len(wrPB3(g)), p, with(h, Granularity, g.Granularity))
  split g.Granularity == 100
  unfold wrPB3(g)
  use imp(g.Granularity != 100, vRound(A, 136, cat(varint(u64(g.Granularity)), B), 0))
  use imp(g.Granularity != 100, vRound(cat(A, varint(136)), u64(g.Granularity), B, 0))

lemma secDateGranularity(A bytes, g t.PrimitiveBlock, B bytes, p t.PBReader, h t.PrimitiveBlock)
  props C04 C05
  requires h.DateGranularity == 1000
  ensures okPB(cat(A, wrPB4(g), B), len(A), p) == okPB(cat(A, wrPB4(g), B), len(A)+len(wrPB4(g)), p)
  ensures rdPB(cat(A, wrPB4(g), B), len(A), p, h) == rdPB(cat(A, wrPB4(g), B), len(A)+len(wrPB4(g)), p, with(h, DateGranularity, g.DateGranularity))
  split g.DateGranularity == 1000
  unfold wrPB4(g)
  use imp(g.DateGranularity != 1000, vRound(A, 144, cat(varint(u64(g.DateGranularity)), B), 0))
  use imp(g.DateGranularity != 1000, vRound(cat(A, varint(144)), u64(g.DateGranularity), B, 0))

lemma secLatOffset(A bytes, g t.PrimitiveBlock, B bytes, p t.PBReader, h t.PrimitiveBlock)
  props C04 C05
  requires h.LatOffset == 0
  ensures okPB(cat(A, wrPB5(g), B), len(A), p) == okPB(cat(A, wrPB5(g), B), len(A)+len(wrPB5(g)), p)
  ensures rdPB(cat(A, wrPB5(g), B), len(A), p, h) == rdPB(cat(A, wrPB5(g), B), len(A)+len(wrPB5(g)), p, with(h, LatOffset, g.LatOffset))
  split g.LatOffset == 0
  unfold wrPB5(g)
  use imp(g.LatOffset != 0, vRound(A, 152, cat(varint(u64(g.LatOffset)), B), 0))
  use imp(g.LatOffset != 0, vRound(cat(A, varint(152)), u64(g.LatOffset), B, 0))

lemma secLonOffset(A bytes, g t.PrimitiveBlock, B bytes, p t.PBReader, h t.PrimitiveBlock)
  props C04 C05
  requires h.LonOffset == 0
  ensures okPB(cat(A, wrPB6(g), B), len(A), p) == okPB(cat(A, wrPB6(g), B), len(A)+len(wrPB6(g)), p)
  ensures rdPB(cat(A, wrPB6(g), B), len(A), p, h) == rdPB(cat(A, wrPB6(g), B), len(A)+len(wrPB6(g)), p, with(h, LonOffset, g.LonOffset))
  split g.LonOffset == 0
  unfold wrPB6(g)
  use imp(g.LonOffset != 0, vRound(A, 160, cat(varint(u64(g.LonOffset)), B), 0))
  use imp(g.LonOffset != 0, vRound(cat(A, varint(160)), u64(g.LonOffset), B, 0))

# a block is read back exactly as it was written
lemma roundPB(g t.PrimitiveBlock, p t.PBReader)
  props C04 C05
  requires canS(g, p) && canPGs(g.PrimitiveGroup, 0, p)
  ensures okPB(wrPB(g), 0, p)
  ensures rdPB(wrPB(g), 0, p, with(zero("t.PrimitiveBlock"), Granularity, 100, DateGranularity, 1000)) == g
  use secS(g, cat(wrPGs(g.PrimitiveGroup, 0), wrPB3(g), wrPB4(g), wrPB5(g), wrPB6(g)), p, with(zero("t.PrimitiveBlock"), Granularity, 100, DateGranularity, 1000))
  use stepPGs(wrPB1(g), g.PrimitiveGroup, 0, cat(wrPB3(g), wrPB4(g), wrPB5(g), wrPB6(g)), p, with(zero("t.PrimitiveBlock"), Granularity, 100, DateGranularity, 1000, StringTable, g.StringTable, StringTableRaw, g.StringTableRaw))
  use secGranularity(cat(wrPB1(g), wrPGs(g.PrimitiveGroup, 0)), g, cat(wrPB4(g), wrPB5(g), wrPB6(g)), p, with(zero("t.PrimitiveBlock"), Granularity, 100, DateGranularity, 1000, StringTable, g.StringTable, StringTableRaw, g.StringTableRaw, PrimitiveGroup, g.PrimitiveGroup))
  use secDateGranularity(cat(wrPB1(g), wrPGs(g.PrimitiveGroup, 0), wrPB3(g)), g, cat(wrPB5(g), wrPB6(g)), p, with(zero("t.PrimitiveBlock"), Granularity, g.Granularity, DateGranularity, 1000, StringTable, g.StringTable, StringTableRaw, g.StringTableRaw, PrimitiveGroup, g.PrimitiveGroup))
  use secLatOffset(cat(wrPB1(g), wrPGs(g.PrimitiveGroup, 0), wrPB3(g), wrPB4(g)), g, wrPB6(g), p, with(zero("t.PrimitiveBlock"), Granularity, g.Granularity, DateGranularity, g.DateGranularity, StringTable, g.StringTable, StringTableRaw, g.StringTableRaw, PrimitiveGroup, g.PrimitiveGroup))
  use secLonOffset(cat(wrPB1(g), wrPGs(g.PrimitiveGroup, 0), wrPB3(g), wrPB4(g), wrPB5(g)), g, empty(bytes), p, with(zero("t.PrimitiveBlock"), Granularity, g.Granularity, DateGranularity, g.DateGranularity, StringTable, g.StringTable, StringTableRaw, g.StringTableRaw, PrimitiveGroup, g.PrimitiveGroup, LatOffset, g.LatOffset))
