# Writer loops: the file is a function of the sequence of blocks received.

fn relPart(b pbf.Block) bytes = ite(b.BlobType == "RelationData", viewbytes_i64(unbox("[]int64", b.Data)), empty(bytes))
fn relFile(bs seq(pbf.Block), i int) bytes decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, empty(bytes), cat(relPart(bs[i]), relFile(bs, i+1)))

contract relindexerinit.RelIndexerInitializer.Output$1(ctx, chIn)
  props C20
  safe false
  havocs ni
  havocs pos
  sets disk = sto(disk, outputFileName, relFile(recv_chIn, 0))
  loop 0
    inv disk == sto(old(disk), outputFileName, sel(disk, outputFileName))
    inv sel(pos, outputFileName) == len(sel(disk, outputFileName))
    inv cat(sel(disk, outputFileName), relFile(recv_chIn, nrecv_chIn)) == relFile(recv_chIn, 0)

fn rawPart(b pbf.Block) bytes = unbox("[]byte", b.Data)
fn rawFile(bs seq(pbf.Block), i int) bytes decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, empty(bytes), cat(rawPart(bs[i]), rawFile(bs, i+1)))

contract decompressor.Decompressor.Output$1(ctx, chIn)
  props C16
  safe false
  havocs decomp
  havocs pos
  sets disk = sto(disk, outputFileName, rawFile(recv_chIn, 0))
  loop 0
    inv disk == sto(old(disk), outputFileName, sel(disk, outputFileName))
    inv sel(pos, outputFileName) == len(sel(disk, outputFileName))
    inv cat(sel(disk, outputFileName), rawFile(recv_chIn, nrecv_chIn)) == rawFile(recv_chIn, 0)

# a block of type T with content d leaves as: size of the header, header, content
fn sentBytes(b pbf.Block) bytes = ite(isa("[]byte", b.Data), unbox("[]byte", b.Data), unbox("mmap.MMap", b.Data))
fn framePart(b pbf.Block) bytes decreases 0 = frame(b.BlobType, sentBytes(b))
fn frameFile(bs seq(pbf.Block), i int) bytes decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, empty(bytes), cat(framePart(bs[i]), frameFile(bs, i+1)))

contract rewriter.NodeRewriter.Writer$1(ctx, chIn)
  props C17
  safe false
  havocs nr
  havocs pos
  sets disk = sto(disk, outputFilename, frameFile(recv_chIn, 0))
  loop 0
    inv disk == sto(old(disk), outputFilename, sel(disk, outputFilename))
    inv sel(pos, outputFilename) == len(sel(disk, outputFilename))
    inv cat(sel(disk, outputFilename), frameFile(recv_chIn, nrecv_chIn)) == frameFile(recv_chIn, 0)

fn keptFile(bs seq(pbf.Block), i int) bytes decreases ite(i >= len(bs), 0, len(bs)-i) = ite(i >= len(bs) || i < 0, empty(bytes), cat(ite(bs[i].BlobType == "Filler", empty(bytes), framePart(bs[i])), keptFile(bs, i+1)))

contract tagfilterer.TagFilterer.Writer$1(ctx, chIn)
  props C18
  safe false
  havocs tf
  havocs pos
  sets disk = sto(disk, filename, keptFile(recv_chIn, 0))
  loop 0
    inv disk == sto(old(disk), filename, sel(disk, filename))
    inv sel(pos, filename) == len(sel(disk, filename))
    inv cat(sel(disk, filename), keptFile(recv_chIn, nrecv_chIn)) == keptFile(recv_chIn, 0)
