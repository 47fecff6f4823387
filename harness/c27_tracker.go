//verif: prop=C27 pkg=internal/tracker race=1
package tracker_test

import (
	"fmt"
	"sync"
	"testing"

	"github.com/squizzling/osmindex/internal/tracker"
	"github.com/squizzling/osmindex/internal/zverif/vh"
)

type worker struct{ id int }

func ids(ws []interface{}) string {
	s := []int{}
	for _, w := range ws {
		if w == nil {
			s = append(s, -1)
			continue
		}
		s = append(s, w.(*worker).id)
	}
	return fmt.Sprint(s)
}

func TestVerif_C27_sequences(t *testing.T) {
	h := vh.Start(t, "C27", "sequences of 1-60 starts, stops (also of workers not tracked, tracked twice, first, last, in the middle) and snapshots, all of which are checked again at the end; non-trivial: distinct sequences")
	h.Budget(4e9, 40e9)
	for h.More(500) {
		n := 1 + h.Size(60)
		pool := 1 + h.Intn(8)
		type op struct{ kind, w int }
		var ops []op
		for i := 0; i < n; i++ {
			ops = append(ops, op{h.Intn(5), h.Intn(pool)})
		}
		h.Case(fmt.Sprint("operations {0,1: start, 2,3: stop, 4: list; worker} ", ops), func() string {
			ws := make([]*worker, pool)
			for i := range ws {
				ws[i] = &worker{i}
			}
			var wt tracker.WorkerTracker
			var model []int
			type snap struct {
				got  []interface{}
				want string
			}
			var snaps []snap
			seen := map[uint64]bool{wt.Version(): true}
			for i, o := range ops {
				v := wt.Version()
				switch o.kind {
				case 0, 1:
					wt.TrackWorker(ws[o.w])
					model = append(append([]int(nil), model...), o.w)
				case 2, 3:
					wt.UntrackWorker(ws[o.w])
					for j, m := range model {
						if m == o.w {
							model = append(append([]int(nil), model[:j]...), model[j+1:]...)
							break
						}
					}
				}
				if o.kind < 4 {
					if wt.Version() == v || seen[wt.Version()] {
						return fmt.Sprintf("operation %d leaves the version at %d", i, v)
					}
					seen[wt.Version()] = true
				} else if wt.Version() != v {
					return fmt.Sprintf("listing changes the version")
				}
				w := fmt.Sprint(append([]int{}, model...))
				g := wt.WorkerStates()
				if ids(g) != w {
					return fmt.Sprintf("after operation %d the list is %s, want %s", i, ids(g), w)
				}
				snaps = append(snaps, snap{g, w})
			}
			for i, s := range snaps {
				if ids(s.got) != s.want {
					return fmt.Sprintf("the list handed out after operation %d was %s and has become %s", i, s.want, ids(s.got))
				}
			}
			// what a holder does to its list does not reach the tracker
			w := fmt.Sprint(append([]int{}, model...))
			for _, s := range snaps {
				for j := range s.got {
					s.got[j] = &worker{99}
				}
				_ = append(s.got, &worker{98})
			}
			if g := ids(wt.WorkerStates()); g != w {
				return fmt.Sprintf("changing handed-out lists changed the tracker from %s to %s", w, g)
			}
			return ""
		})
	}
}

func TestVerif_C27_concurrent(t *testing.T) {
	h := vh.Start(t, "C27", "2-12 goroutines start and stop their own workers while others list; at the end exactly the remaining ones are listed; race detector on; non-trivial: distinct schedules")
	h.Budget(4e9, 40e9)
	for h.More(20) {
		n, rounds := 2+h.Intn(11), 1+h.Intn(60)
		keep := make([]bool, n)
		for i := range keep {
			keep[i] = h.Intn(2) == 0
		}
		h.Case(fmt.Sprintf("goroutines=%d rounds=%d keep=%v", n, rounds, keep), func() string {
			var wt tracker.WorkerTracker
			var wg sync.WaitGroup
			stop := make(chan struct{})
			bad := make(chan string, 1)
			var lg sync.WaitGroup
			lg.Add(1)
			go func() {
				defer lg.Done()
				for {
					select {
					case <-stop:
						return
					default:
					}
					seen := map[int]bool{}
					for _, w := range wt.WorkerStates() {
						if w == nil {
							select {
							case bad <- "a listed worker is nil":
							default:
							}
							return
						}
						id := w.(*worker).id
						if seen[id] {
							select {
							case bad <- fmt.Sprintf("worker %d is listed twice", id):
							default:
							}
							return
						}
						seen[id] = true
					}
					_ = wt.Version()
				}
			}()
			ops := 0
			for i := 0; i < n; i++ {
				wg.Add(1)
				ops += 2 * rounds
				if keep[i] {
					ops++
				}
				go func(i int) {
					defer wg.Done()
					w := &worker{i}
					for r := 0; r < rounds; r++ {
						wt.TrackWorker(w)
						wt.UntrackWorker(w)
					}
					if keep[i] {
						wt.TrackWorker(w)
					}
				}(i)
			}
			wg.Wait()
			close(stop)
			lg.Wait()
			select {
			case m := <-bad:
				return m
			default:
			}
			got := map[int]int{}
			for _, w := range wt.WorkerStates() {
				got[w.(*worker).id]++
			}
			for i, k := range keep {
				if k && got[i] != 1 || !k && got[i] != 0 {
					return fmt.Sprintf("worker %d is listed %d times, still running: %v", i, got[i], k)
				}
			}
			return ""
		})
	}
}

// A display takes the list again whenever the version number is another one than it saw last.
func TestVerif_C27_refresh(t *testing.T) {
	h := vh.Start(t, "C27", "3 displays which take the list again whenever the version number changes, while one worker starts or stops, 200 times over; after their last look each must show the workers which run; non-trivial: distinct histories")
	h.Budget(3e9, 40e9)
	for h.More(20) {
		var ops []bool
		for i := 0; i < 200; i++ {
			ops = append(ops, h.Intn(3) > 0)
		}
		h.Case(fmt.Sprint("starts (true) and stops of the oldest worker (false): ", ops), func() string {
			wt := &tracker.WorkerTracker{}
			var running []interface{}
			for i, start := range ops {
				const readers = 3
				var ready, wg sync.WaitGroup
				done := make(chan struct{})
				shown := make([][]interface{}, readers)
				for r := 0; r < readers; r++ {
					ready.Add(1)
					wg.Add(1)
					go func(r int) {
						defer wg.Done()
						last := wt.Version()
						shown[r] = wt.WorkerStates()
						ready.Done()
						for last1 := false; ; {
							if v := wt.Version(); v != last {
								last, shown[r] = v, wt.WorkerStates()
							}
							if last1 {
								return
							}
							select {
							case <-done:
								last1 = true
							default:
							}
						}
					}(r)
				}
				ready.Wait()
				if start {
					w := &worker{i}
					wt.TrackWorker(w)
					running = append(running, w)
				} else if len(running) > 0 {
					wt.UntrackWorker(running[0])
					running = running[1:]
				}
				close(done)
				wg.Wait()
				for _, s := range shown {
					if ids(s) != ids(running) {
						return fmt.Sprintf("after operation %d the version number stays, a display shows %s, running are %s", i, ids(s), ids(running))
					}
				}
			}
			return ""
		})
	}
}
