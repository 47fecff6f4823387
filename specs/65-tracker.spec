# The list of running workers.

fn without(xs seq(any), x any, i int) seq(any) decreases ite(i >= len(xs), 0, len(xs)-i) = ite(i >= len(xs) || i < 0, empty(seq(any)), ite(xs[i] == x, xs[i+1:], cons(xs[i], without(xs, x, i+1))))

contract tracker.WorkerTracker.TrackWorker(wt, sw)
  props C27
  ensures els(new(wt).workers) == push(els(wt.workers), sw)
  ensures new(wt).version == u64(wt.version + 1)
  havocs wt

contract tracker.WorkerTracker.UntrackWorker(wt, sw)
  props C27
  ensures els(new(wt).workers) == without(els(wt.workers), sw, 0)
  ensures new(wt).version == u64(wt.version + 1)
  havocs wt
  loop 0
    inv els(wt.workers) == els(old(wt).workers)
    inv without(els(old(wt).workers), sw, 0) == cat(els(old(wt).workers)[:iter], without(els(old(wt).workers), sw, iter))

contract tracker.WorkerTracker.WorkerStates(wt)
  props C27
  ensures els(result0) == els(wt.workers)
  loop 0
    inv els(states) == els(wt.workers)[:iter]

contract tracker.WorkerTracker.Version(wt)
  props C27
  returns wt.version
