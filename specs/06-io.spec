# Files: what the operating system does with writes, reads and seeks (trusted), and the wrappers of internal/iio
# (proved against it). A file is known by its name; one handle per name is open at a time.

ghost disk map(bytes,bytes), pos map(bytes,int)
ufn fileName(f *os.File) bytes

# bytes of c with w written at p (p <= len(c))
fn patch(c bytes, p int, w bytes) bytes = ite(p == len(c), cat(c, w), cat(c[:p], w, c[min(p+len(w), len(c)):]))

contract os.Create(name)
  trusted
  sets disk = sto(disk, name, empty(bytes))
  sets pos = sto(pos, name, 0)
  ensures imp(isnil(result1), fileName(result0) == name)

# a write may be short, may fail, may do both
contract os.File.Write(f, b)
  trusted
  ensures 0 <= result0 && result0 <= len(b)
  sets disk = sto(disk, fileName(f), patch(sel(disk, fileName(f)), sel(pos, fileName(f)), els(b)[:result0]))
  sets pos = sto(pos, fileName(f), sel(pos, fileName(f)) + result0)

contract os.File.Close(f)
  trusted

contract iio.OsCreate(fn)
  props C23
  safe false
  ensures fileName(result0) == fn
  sets disk = sto(disk, fn, empty(bytes))
  sets pos = sto(pos, fn, 0)

contract iio.FClose(f)
  props C23
  safe false

contract iio.FWrite(f, buf)
  props C23
  requires 0 <= sel(pos, fileName(f)) && sel(pos, fileName(f)) <= len(sel(disk, fileName(f)))
  safe false
  sets disk = sto(disk, fileName(f), patch(sel(disk, fileName(f)), sel(pos, fileName(f)), els(buf)))
  sets pos = sto(pos, fileName(f), sel(pos, fileName(f)) + len(buf))
  loop 0
    inv remaining == len(buf)
    inv 0 <= sel(pos, fileName(f)) && sel(pos, fileName(f)) <= len(sel(disk, fileName(f)))
    inv sel(pos, fileName(f)) + len(buf) == sel(old(pos), fileName(f)) + len(old(buf))
    inv patch(sel(disk, fileName(f)), sel(pos, fileName(f)), els(buf)) == patch(sel(old(disk), fileName(f)), sel(old(pos), fileName(f)), els(old(buf)))
    inv disk == sto(old(disk), fileName(f), sel(disk, fileName(f)))
    inv pos == sto(old(pos), fileName(f), sel(pos, fileName(f)))

contract iio.FWriteSliceI64(f, data)
  props C23
  requires 0 <= sel(pos, fileName(f)) && sel(pos, fileName(f)) <= len(sel(disk, fileName(f)))
  safe false
  sets disk = sto(disk, fileName(f), patch(sel(disk, fileName(f)), sel(pos, fileName(f)), viewbytes_i64(els(data))))
  sets pos = sto(pos, fileName(f), sel(pos, fileName(f)) + len(viewbytes_i64(els(data))))
  ensures len(viewbytes_i64(els(data))) == 8*len(data)
  use viewLenI(els(data))

contract iio.FWriteSliceU64(f, data)
  props C23
  requires 0 <= sel(pos, fileName(f)) && sel(pos, fileName(f)) <= len(sel(disk, fileName(f)))
  safe false
  sets disk = sto(disk, fileName(f), patch(sel(disk, fileName(f)), sel(pos, fileName(f)), viewbytes_u64(els(data))))
  sets pos = sto(pos, fileName(f), sel(pos, fileName(f)) + len(viewbytes_u64(els(data))))
  ensures len(viewbytes_u64(els(data))) == 8*len(data)
  use viewLenU(els(data))

contract os.File.Seek(f, o, w)
  trusted
  requires w == 0
  sets pos = sto(pos, fileName(f), o)
  ensures imp(isnil(result1), result0 == o)

contract iio.FSeek(f, o, w)
  props C23
  requires w == 0
  safe false
  sets pos = sto(pos, fileName(f), o)
  ensures result0 == o

# a read delivers the next bytes, at least one of them unless the end is reached or it fails
contract os.File.Read(f, b)
  trusted
  ensures 0 <= result0 && result0 <= len(b) && sel(pos, fileName(f)) + result0 <= len(sel(disk, fileName(f)))
  ensures imp(result0 == 0 && len(b) > 0 && (isnil(result1) || result1 == global("io.EOF", "any")), sel(pos, fileName(f)) == len(sel(disk, fileName(f))))
  sets b = cat(sel(disk, fileName(f))[sel(pos, fileName(f)) : sel(pos, fileName(f))+result0], els(b)[result0:])
  sets pos = sto(pos, fileName(f), sel(pos, fileName(f)) + result0)

contract iio.FRead(f, buf)
  props C23
  requires 0 <= sel(pos, fileName(f)) && sel(pos, fileName(f)) <= len(sel(disk, fileName(f)))
  safe false
  ensures 0 <= result0 && result0 <= len(buf) && sel(pos, fileName(f)) + result0 <= len(sel(disk, fileName(f)))
  ensures imp(result0 == 0 && len(buf) > 0, sel(pos, fileName(f)) == len(sel(disk, fileName(f))))
  sets buf = cat(sel(disk, fileName(f))[sel(pos, fileName(f)) : sel(pos, fileName(f))+result0], els(buf)[result0:])
  sets pos = sto(pos, fileName(f), sel(pos, fileName(f)) + result0)

contract iio.FCopy(fDst, fSrc, buf)
  props C23
  requires fileName(fDst) != fileName(fSrc)
  requires 0 <= sel(pos, fileName(fSrc)) && sel(pos, fileName(fSrc)) <= len(sel(disk, fileName(fSrc)))
  requires 0 <= sel(pos, fileName(fDst)) && sel(pos, fileName(fDst)) <= len(sel(disk, fileName(fDst)))
  safe false
  havocs buf
  ensures 0 <= result0 && result0 <= len(buf) && sel(pos, fileName(fSrc)) + result0 <= len(sel(disk, fileName(fSrc)))
  ensures imp(result0 == 0 && len(buf) > 0, sel(pos, fileName(fSrc)) == len(sel(disk, fileName(fSrc))))
  sets disk = sto(disk, fileName(fDst), patch(sel(disk, fileName(fDst)), sel(pos, fileName(fDst)), sel(disk, fileName(fSrc))[sel(pos, fileName(fSrc)) : sel(pos, fileName(fSrc))+result0]))
  sets pos = sto(sto(pos, fileName(fSrc), sel(pos, fileName(fSrc)) + result0), fileName(fDst), sel(pos, fileName(fDst)) + result0)

contract os.Remove(name)
  trusted
  sets disk = sto(disk, name, empty(bytes))

contract iio.OsRemove(fn)
  props C23
  safe false
  sets disk = sto(disk, fn, empty(bytes))

contract os.Open(name)
  trusted
  sets pos = sto(pos, name, 0)
  ensures imp(isnil(result1), fileName(result0) == name)

contract iio.OsOpen(fn)
  props C23
  safe false
  ensures fileName(result0) == fn
  sets pos = sto(pos, fn, 0)

# the kind and the size of a file; the memory of a mapped file is its content
ufn statOf(fi os.FileInfo) bytes
contract os.File.Stat(f)
  trusted
  ensures imp(isnil(result1), statOf(result0) == sel(disk, fileName(f)))
contract os.FileInfo.Mode(fi)
  trusted
contract os.FileInfo.Size(fi)
  trusted
  ensures result0 == len(statOf(fi))
contract fs.FileMode.IsRegular(m)
  trusted

contract mmap.Map(f, prot, flags)
  trusted
  option exact
  ensures imp(isnil(result1), els(result0) == sel(disk, fileName(f)))
contract mmap.MMap.Unmap(m)
  trusted

contract iio.MMapMap(f)
  props C15 C23
  option exact
  safe false
  ensures els(result0) == sel(disk, fileName(f))

contract iio.MMapUnmap(m)
  props C23
  safe false
