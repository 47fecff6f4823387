# Trusted models of the standard library functions the code calls.

contract atomic.LoadUint64(addr)
  trusted
  returns addr

contract atomic.StoreUint64(addr, val)
  trusted
  sets addr = val

contract atomic.AddUint64(addr, delta)
  trusted
  sets addr = u64(addr + delta)
  returns u64(addr + delta)

contract atomic.CompareAndSwapUint64(addr, o, n)
  trusted
  sets addr = ite(addr == o, n, addr)
  returns addr == o

# locks: mutual exclusion itself is not modelled
contract sync.RWMutex.Lock(m)
  trusted
contract sync.RWMutex.Unlock(m)
  trusted
contract sync.RWMutex.RLock(m)
  trusted
contract sync.RWMutex.RUnlock(m)
  trusted
contract sync.Mutex.Lock(m)
  trusted
contract sync.Mutex.Unlock(m)
  trusted
