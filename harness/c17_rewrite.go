//verif: prop=C17 pkg=cmd/rewritenodes/rewriter
package rewriter_test

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/squizzling/osmindex/cmd/rewritenodes/rewriter"
	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/zverif/vh"
	"github.com/squizzling/osmindex/internal/zverif/vhp"
)

func hasWays(o *vh.OBlock) bool {
	for _, g := range o.Groups {
		if len(g.Ways) > 0 {
			return true
		}
	}
	return false
}

// checkRewrite compares an output file with the input it was made from.
func checkRewrite(out string, bs []vh.OBlob, blocks []*vh.OBlock, locs map[int64]int64) string {
	b, err := os.ReadFile(out)
	if err != nil {
		return err.Error()
	}
	raw, err := vh.RawFrames(b)
	if err != nil {
		return err.Error()
	}
	got, err := vh.DecFile(b)
	if err != nil {
		return err.Error()
	}
	if len(got) != len(bs) {
		return fmt.Sprintf("%d blocks, want %d", len(got), len(bs))
	}
	for i := range bs {
		if got[i].Type != bs[i].Type {
			return fmt.Sprintf("block %d has type %q, want %q", i, got[i].Type, bs[i].Type)
		}
		if blocks[i] == nil || !hasWays(blocks[i]) {
			if w := vh.EncBlob(bs[i].Data, bs[i].Zlib); !bytes.Equal(raw[i].Data, w) {
				return fmt.Sprintf("block %d, which has no ways, was changed from %x to %x", i, w, raw[i].Data)
			}
			continue
		}
		o, err := vh.DecOBlock(got[i].Data)
		if err != nil {
			return fmt.Sprintf("block %d: %s", i, err)
		}
		w, err := vh.DecOBlock(bs[i].Data)
		if err != nil {
			return err.Error()
		}
		for _, g := range w.Groups {
			for _, x := range g.Ways {
				for k, r := range x.Refs {
					if r >= 0 && locs[r] != 0 {
						x.Refs[k] = locs[r]
					}
				}
			}
		}
		if m := vh.Diff(o.Dump(), w.Dump()); m != "" {
			return fmt.Sprintf("block %d %s", i, m)
		}
		r1, _ := vh.RawSections(got[i].Data)
		r2, _ := vh.RawSections(bs[i].Data)
		if fmt.Sprint(r1.Strings) != fmt.Sprint(r2.Strings) {
			return fmt.Sprintf("block %d: string table %x, was %x", i, r1.Strings, r2.Strings)
		}
		for j := range r2.Groups {
			if fmt.Sprint(r1.Groups[j].Dense) != fmt.Sprint(r2.Groups[j].Dense) || fmt.Sprint(r1.Groups[j].Rels) != fmt.Sprint(r2.Groups[j].Rels) {
				return fmt.Sprintf("block %d group %d: the dense nodes or relations are not the bytes they were", i, j)
			}
		}
	}
	return ""
}

// index of small ids with gaps, all locations negative as codes are
func smallIndex(h *vh.H, max int64) (rs []vh.ORange, locs map[int64]int64) {
	locs = map[int64]int64{}
	next := int64(h.Intn(4))
	for next < max {
		r := vh.ORange{First: uint64(next)}
		for n := 1 + h.Size(12); n > 0; n-- {
			l := -1 - h.Int63()
			if h.Intn(6) == 0 && len(r.Locs) > 0 && n > 1 {
				l = 0
			}
			r.Locs = append(r.Locs, l)
			locs[next] = l
			next++
		}
		rs = append(rs, r)
		next += int64(h.Intn(5))
		if h.Intn(10) == 0 {
			next += int64(h.Intn(60))
		}
	}
	if h.Intn(8) == 0 {
		return nil, map[int64]int64{}
	}
	return
}

func genFile(h *vh.H) ([]vh.OBlob, []*vh.OBlock) {
	g := vh.NewGen(h)
	g.MaxN = 1 + h.Intn(12)
	g.WayRefMax = 150
	bs, blocks := g.File(h.Size(8))
	for i, o := range blocks {
		if o == nil {
			continue
		}
		for _, gr := range o.Groups {
			for _, w := range gr.Ways {
				for k := range w.Refs {
					switch h.Intn(10) {
					case 0:
						w.Refs[k] = -1 - h.Int63()
					case 1:
						w.Refs[k] = h.Int63()
					case 2:
						w.Refs[k] = 0
					}
				}
			}
		}
		bs[i].Data = o.Enc()
	}
	return bs, blocks
}

func TestVerif_C17_passes(t *testing.T) {
	h := vh.Start(t, "C17", "files of 0-8 blocks with all sections, references that are known, unknown, huge, zero or already converted; indexes with gaps and empty ones; 1-6 passes and 1-6 workers; non-trivial: distinct (file, index, passes)")
	h.Budget(8e9, 90e9)
	dir := h.TempDir()
	for h.More(100) {
		bs, blocks := genFile(h)
		rs, locs := smallIndex(h, 130)
		passes := uint64(1 + h.Intn(6))
		workers := 1 + h.Intn(6)
		in := vh.Put(dir, "in.pbf", vh.EncFile(bs))
		ixf := vh.Put(dir, "nodes.idx", vh.EncNodeIndex(rs))
		h.Case(fmt.Sprintf("passes=%d workers=%d index=%s file=%s", passes, workers, vh.DumpRanges(rs), vhp.FileText(bs, blocks)), func() string {
			ix := nodeindex.NewNodeIndex(ixf, nil)
			defer ix.Close()
			cur := in
			for p := uint64(0); p < passes; p++ {
				nr := &rewriter.NodeRewriter{}
				next := filepath.Join(dir, fmt.Sprintf("pass%d.pbf", p))
				vhp.Process(cur, nr.Worker(ix.SubIndex(p, passes), p == passes-1), nr.Writer(next), workers)
				cur = next
			}
			return checkRewrite(cur, bs, blocks, locs)
		})
	}
}

// the command itself; its memory option sets the number of passes
func TestVerif_C17_tool(t *testing.T) {
	h := vh.Start(t, "C17", "the rewritenodes command with an index of about 0, 1.2 and 2.4 MB and a memory limit of 1 MB (1, 2 and 3 passes); non-trivial: distinct (file, index)")
	h.Budget(4e9, 30e9)
	dir := h.TempDir()
	bin := vh.Tool(h, "rewritenodes")
	for k := 0; k < 6 || h.More(9); k++ {
		big := []int{300000, 0, 150000}[k%3]
		bs, blocks := genFile(h)
		rs, locs := smallIndex(h, 130)
		if big > 0 {
			r := vh.ORange{First: 200}
			for i := 0; i < big; i++ {
				l := -int64(i)*977 - 5
				r.Locs = append(r.Locs, l)
				locs[200+int64(i)] = l
				if i%1000 == 999 {
					rs = append(rs, r)
					r = vh.ORange{First: uint64(200 + i + 1)}
				}
			}
		}
		for i, o := range blocks {
			if o == nil {
				continue
			}
			for _, gr := range o.Groups {
				for _, w := range gr.Ways {
					for k := range w.Refs {
						if h.Intn(2) == 0 {
							w.Refs[k] = int64(h.Intn(big + 300))
						}
					}
				}
			}
			bs[i].Data = o.Enc()
		}
		in := vh.Put(dir, "in.pbf", vh.EncFile(bs))
		vh.Put(dir, "nodes.idx", vh.EncNodeIndex(rs))
		workers := 1 + h.Intn(4)
		h.Case(fmt.Sprintf("%d extra ids, workers=%d %s", big, workers, vhp.FileText(bs, blocks)), func() string {
			args := []string{"-r", "0", "-i", in, "-x", "nodes.idx", "-o", "out.pbf", "-w", fmt.Sprint(workers)}
			if h.Intn(4) > 0 {
				args = append(args, "-m", "1")
			}
			if out, err := vh.Run(dir, bin, args...); err != nil {
				return err.Error() + ": " + out
			}
			if m := checkRewrite(filepath.Join(dir, "out.pbf"), bs, blocks, locs); m != "" {
				return m
			}
			left, _ := filepath.Glob(filepath.Join(dir, "*pass*"))
			for _, l := range left {
				return "left behind: " + filepath.Base(l)
			}
			return ""
		})
	}
}
