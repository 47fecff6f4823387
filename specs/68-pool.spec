# The buffer pool. sync.Pool is trusted: what it hands out is what was put in or what New makes, that is a []byte of
# any length, capacity and content.
ghost pooled seq(any)

contract sync.Pool.Get(p)
  trusted
  ensures isa("[]byte", result0)

contract sync.Pool.Put(p, x)
  trusted
  sets pooled = cat(pooled, cons(x, empty(seq(any))))

contract pool.ByteSlicePool.Get(bsp, sz)
  props C24
  requires sz < 4611686018427387904
  havocs bsp.defSize
  ensures length: len(result0.Buffer) == sz
  ensures owner: result0.isBorrowed

contract pool.NonBorrowedBuffer(buf)
  props C24
  returns with(zero("pool.BorrowedBuffer"), Buffer, buf, isBorrowed, false)

# only borrowed buffers go (back) into the pool
contract pool.ByteSlicePool.Put(bsp, bb)
  props C24
  sets pooled = ite(bb.isBorrowed, cat(pooled, cons(box("[]byte", bb.Buffer), empty(seq(any)))), pooled)
