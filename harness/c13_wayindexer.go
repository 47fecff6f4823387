//verif: prop=C13 pkg=cmd/wayindex/wayindexer
package wayindexer_test

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/squizzling/osmindex/cmd/wayindex/wayindexer"
	"github.com/squizzling/osmindex/internal/wayindex"
	"github.com/squizzling/osmindex/internal/zverif/vh"
	"github.com/squizzling/osmindex/internal/zverif/vhp"
)

func wantWays(blocks []*vh.OBlock) (ws []vh.OWayLoc) {
	for _, o := range blocks {
		if o == nil {
			continue
		}
		for _, g := range o.Groups {
			for _, w := range g.Ways {
				x := vh.OWayLoc{ID: w.ID}
				last := int64(0)
				for _, r := range w.Refs {
					if r != last {
						x.Locs = append(x.Locs, r)
						last = r
					}
				}
				ws = append(ws, x)
			}
		}
	}
	return
}

func checkWays(fn string, blocks []*vh.OBlock, shift uint) string {
	want := wantWays(blocks)
	b, err := os.ReadFile(fn)
	if err != nil {
		return err.Error()
	}
	got, s, err := vh.DecWayIndex(b)
	if err != nil {
		return err.Error()
	}
	if s != shift {
		return fmt.Sprintf("alignment shift %d, want %d", s, shift)
	}
	if m := vh.Diff(fmt.Sprint(got), fmt.Sprint(want)); m != "" {
		return m
	}
	if _, err := os.Stat(fn + ".loc.tmp"); err == nil {
		return "the temporary location file is left behind"
	}
	idx := wayindex.NewWayIndex(fn, nil)
	defer idx.Close()
	si := idx.SubIndexWithScaledPass(0, 1)
	if len(want) != len(si.Ids) {
		return fmt.Sprintf("%d ways, want %d", len(si.Ids), len(want))
	}
	asc := true
	for i := range want {
		if i > 0 && want[i].ID <= want[i-1].ID {
			asc = false
		}
	}
	for _, w := range want {
		if !asc {
			break
		}
		if l, _, ok := si.FindLocations(w.ID, 0); !ok || fmt.Sprint(l) != fmt.Sprint(w.Locs) {
			return fmt.Sprintf("looking up way %d gives %v %v, want %v", w.ID, l, ok, w.Locs)
		}
	}
	return ""
}

func TestVerif_C13_build(t *testing.T) {
	h := vh.Start(t, "C13", "files of 0-12 blocks with 0-30 ways per group (references of any sign and size, zeros and repeats, empty lists, long lists), other sections and headers mixed in, alignment 1-64 bytes, 1-8 workers; non-trivial: distinct (file, alignment)")
	h.Budget(10e9, 120e9)
	dir := h.TempDir()
	for h.More(150) {
		g := vh.NewGen(h)
		g.Sorted = true
		g.Ways = 9
		g.Wild = h.Intn(2) == 0
		g.MaxN = 1 + h.Intn(30)
		if h.Intn(4) == 0 {
			g.NextW = int64(h.Intn(1 << 30))
		}
		bs, blocks := g.File(h.Size(12))
		for _, o := range blocks {
			if o == nil {
				continue
			}
			changed := false
			for _, gr := range o.Groups {
				for _, w := range gr.Ways {
					for i := range w.Refs {
						switch h.Intn(12) {
						case 0:
							w.Refs[i], changed = 0, true
						case 1:
							if i > 0 {
								w.Refs[i], changed = w.Refs[i-1], true
							}
						}
					}
				}
			}
			_ = changed
		}
		for i, o := range blocks {
			if o != nil {
				bs[i].Data = o.Enc()
			}
		}
		shift := uint(h.Intn(7))
		workers := 1 + h.Intn(8)
		in := vh.Put(dir, "in.pbf", vh.EncFile(bs))
		out := filepath.Join(dir, "out.idx")
		h.Case(fmt.Sprintf("shift=%d workers=%d %s", shift, workers, vhp.FileText(bs, blocks)), func() string {
			wi := &wayindexer.WayIndexer{}
			vhp.Process(in, wi.Worker(int(shift)), wi.Output(out, int(shift)), workers)
			return checkWays(out, blocks, shift)
		})
	}
}

func TestVerif_C13_large(t *testing.T) {
	h := vh.Start(t, "C13", "blocks of 2000-6000 ways with long reference lists (up to 5000; more than 1 MB of data); non-trivial: distinct files")
	h.Budget(3e9, 40e9)
	dir := h.TempDir()
	for h.More(2) {
		var bs []vh.OBlob
		var blocks []*vh.OBlock
		next := int64(1)
		for k := 1 + h.Intn(3); k > 0; k-- {
			o := vh.NewOBlock()
			gr := &vh.OGroup{}
			for n := 2000 + h.Intn(4000); n > 0; n-- {
				w := &vh.OWay{ID: next}
				next += int64(1 + h.Intn(3))
				m := h.Intn(60)
				if n%700 == 0 {
					m = 1990 + h.Intn(3000)
				}
				for ; m > 0; m-- {
					w.Refs = append(w.Refs, -h.Int63())
				}
				gr.Ways = append(gr.Ways, w)
			}
			o.Groups = []*vh.OGroup{gr}
			blocks = append(blocks, o)
			bs = append(bs, vh.OBlob{Type: "OSMData", Data: o.Enc()})
		}
		shift := uint(h.Intn(7))
		in := vh.Put(dir, "in.pbf", vh.EncFile(bs))
		out := filepath.Join(dir, "out.idx")
		h.Case(fmt.Sprintf("%d large blocks, last id %d, shift %d", len(bs), next, shift), func() string {
			wi := &wayindexer.WayIndexer{}
			vhp.Process(in, wi.Worker(int(shift)), wi.Output(out, int(shift)), 2)
			return checkWays(out, blocks, shift)
		})
	}
}

func TestVerif_C13_tool(t *testing.T) {
	h := vh.Start(t, "C13", "the wayindex command on small files with different alignments; non-trivial: distinct files")
	h.Budget(1e9, 10e9)
	dir := h.TempDir()
	bin := vh.Tool(h, "wayindex")
	for h.More(10) {
		g := vh.NewGen(h)
		g.Sorted = true
		bs, blocks := g.File(h.Size(6))
		in := vh.Put(dir, "in.pbf", vh.EncFile(bs))
		shift := uint(h.Intn(5))
		h.Case(fmt.Sprintf("shift=%d %s", shift, vhp.FileText(bs, blocks)), func() string {
			if out, err := vh.Run(dir, bin, "-r", "0", "-i", in, "-o", "out.idx", "-a", fmt.Sprint(shift), "-w", fmt.Sprint(1+h.Intn(4))); err != nil {
				return err.Error() + ": " + out
			}
			return checkWays(filepath.Join(dir, "out.idx"), blocks, shift)
		})
	}
}
