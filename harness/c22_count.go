//verif: prop=C22 pkg=internal/pbf
package pbf_test

import (
	"fmt"
	"sync"
	"testing"

	"github.com/squizzling/osmindex/internal/zverif/vh"
	"github.com/squizzling/osmindex/internal/zverif/vhp"
)

func TestVerif_C22_count(t *testing.T) {
	h := vh.Start(t, "C22", "the entitycount command on files of 0-40 blocks with all sections and ids of any size (single maxima anywhere), 1-16 workers; non-trivial: distinct files")
	h.Budget(10e9, 100e9)
	dir := h.TempDir()
	bin := vh.Tool(h, "entitycount")
	for h.More(80) {
		g := vh.NewGen(h)
		g.MaxN = 1 + h.Intn(12)
		g.Wild = h.Intn(4) == 0
		g.Sorted = h.Intn(3) == 0
		switch h.Intn(6) {
		case 0:
			g.Ways, g.Rels = 0, 0
		case 1:
			g.Dense, g.Rels = 0, 0
		case 2:
			g.Dense, g.Ways = 0, 0
		}
		bs, blocks := g.File(h.Size(40))
		if h.Intn(4) == 0 {
			bs, blocks = bs[1:], blocks[1:]
		}
		var nodes, ways, refs, rels, maxN, maxW, maxR, maxL uint64
		up := func(m *uint64, v uint64) {
			if v > *m {
				*m = v
			}
		}
		for _, o := range blocks {
			if o == nil {
				continue
			}
			for _, gr := range o.Groups {
				if gr.Dense != nil {
					for _, id := range gr.Dense.Id {
						nodes++
						up(&maxN, uint64(id))
					}
				}
				for _, w := range gr.Ways {
					ways++
					refs += uint64(len(w.Refs))
					up(&maxW, uint64(w.ID))
					up(&maxL, uint64(len(w.Refs)))
				}
				for _, r := range gr.Rels {
					rels++
					up(&maxR, uint64(r.ID))
				}
			}
		}
		workers := 1 + h.Intn(16)
		in := vh.Put(dir, "in.pbf", vh.EncFile(bs))
		h.Case(fmt.Sprintf("workers=%d %s", workers, vhp.FileText(bs, blocks)), func() string {
			out, err := vh.Run(dir, bin, "-i", in, "-w", fmt.Sprint(workers))
			if err != nil {
				return err.Error() + ": " + out
			}
			want := fmt.Sprintf("Counted %d blocks\nCounted %d nodes, %d max\nCounted %d ways, %d max\nCounted %d ways refs, %d maximum length\nCounted %d relations, %d max\n", len(bs), nodes, maxN, ways, maxW, refs, maxL, rels, maxR)
			return vh.Diff(out, want)
		})
	}
}

// The workers end together, so that their merging of counts and maxima collides now and then.
func TestVerif_C22_together(t *testing.T) {
	h := vh.Start(t, "C22", "the entitycount command run 400 times over a file with one small block per worker, 6-20 workers which all end at the same time, block k holding the largest id and the longest way; non-trivial: distinct files")
	h.Budget(9e9, 120e9)
	dir := h.TempDir()
	bin := vh.Tool(h, "entitycount")
	for h.More(10) {
		n := 6 + h.Intn(15)
		perm := h.Rand.Perm(n)
		var bs []vh.OBlob
		refs := 0
		for _, k := range perm {
			o := vh.NewOBlock()
			id := int64(k + 1)
			o.Groups = []*vh.OGroup{
				{Dense: &vh.ODense{Id: []int64{id}, Lat: []int64{0}, Lon: []int64{0}}},
				{Ways: []*vh.OWay{{ID: id, Refs: make([]int64, k+1)}}},
				{Rels: []*vh.ORel{{ID: id}}},
			}
			refs += k + 1
			bs = append(bs, vh.OBlob{Type: "OSMData", Data: o.Enc()})
		}
		in := vh.Put(dir, "in.pbf", vh.EncFile(bs))
		want := fmt.Sprintf("Counted %d blocks\nCounted %d nodes, %d max\nCounted %d ways, %d max\nCounted %d ways refs, %d maximum length\nCounted %d relations, %d max\n", n, n, n, n, n, refs, n, n, n)
		h.Case(fmt.Sprintf("400 runs with -w %d over blocks with ids %v+1", n, perm), func() string {
			var wg sync.WaitGroup
			res := make(chan string, 400)
			for p := 0; p < 4; p++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 100; i++ {
						out, err := vh.Run(dir, bin, "-i", in, "-w", fmt.Sprint(n))
						if err != nil {
							res <- err.Error() + ": " + out
							return
						}
						if d := vh.Diff(out, want); d != "" {
							res <- d
							return
						}
					}
				}()
			}
			wg.Wait()
			select {
			case m := <-res:
				return m
			default:
				return ""
			}
		})
	}
}
