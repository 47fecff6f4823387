# Cutting the input file into blocks.

contract binary.bigEndian.Uint32(e, b)
  trusted
  safe len(b) >= 4
  ensures refusal: len(b) >= 4
  returns els(b)[0]*16777216 + els(b)[1]*65536 + els(b)[2]*256 + els(b)[3]

fn hdrLen(d bytes, i int) int = d[i]*16777216 + d[i+1]*65536 + d[i+2]*256 + d[i+3]
fn hdrAt(d bytes, i int) t.BlobHeader = hRd(d[i+4 : i+4+hdrLen(d, i)])
fn hdrOK(d bytes, i int) bool decreases 0 = i+4 <= len(d) && i+4+hdrLen(d, i) <= len(d) && hOK(d[i+4 : i+4+hdrLen(d, i)])
fn blkEnd(d bytes, i int) int = i+4+hdrLen(d, i)+hdrAt(d, i).DataSize
fn blkOK(d bytes, i int) bool decreases 0 = hdrOK(d, i) && (hdrAt(d, i).Type == "OSMHeader" || hdrAt(d, i).Type == "OSMData") && hdrAt(d, i).DataSize >= 0 && blkEnd(d, i) <= len(d)
fn cutsOK(d bytes, i int) bool decreases ite(i >= len(d), 0, len(d)-i) = ite(i >= len(d) || i < 0, true, blkOK(d, i) && cutsOK(d, ite(blkEnd(d, i) > i, blkEnd(d, i), len(d))))
fn itemAt(d bytes, i int, k u64) pbf.Block = mk("pbf.Block", k, box("mmap.MMap", sl(d[i+4+hdrLen(d, i) : blkEnd(d, i)])), hdrAt(d, i).Type)
fn items(d bytes, i int, k u64) seq(pbf.Block) decreases ite(i >= len(d), 0, len(d)-i) = ite(i >= len(d) || i < 0, empty(seq(pbf.Block)), cons(itemAt(d, i, k), items(d, ite(blkEnd(d, i) > i, blkEnd(d, i), len(d)), u64(k+1))))

contract pbf.ProcessFileState.processFileWork(pfs, ctx, file, workStep, writeStep, workers)
  props C15
  safe false
  havocs pfs
  havocs pos
  ensures imp(!cancelled(ctx), cutsOK(sel(old(disk), file), 0))
  ensures imp(!cancelled(ctx), sent_local == items(sel(old(disk), file), 0, 0))
  loop 0
    inv sent_local == empty(seq(pbf.Block))
  loop 1
    inv pfs.max == len(sel(old(disk), file)) && els(inputBuffer) == sel(old(disk), file)
    inv cat(sent_local, items(sel(old(disk), file), pfs.at, blobIndex)) == items(sel(old(disk), file), 0, 0)
    inv imp(cutsOK(sel(old(disk), file), pfs.at), cutsOK(sel(old(disk), file), 0))
