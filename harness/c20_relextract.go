//verif: prop=C20 pkg=cmd/relindex/relindexerinit
package relindexerinit_test

import (
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/squizzling/osmindex/cmd/relindex/relindexerinit"
	"github.com/squizzling/osmindex/internal/zverif/vh"
	"github.com/squizzling/osmindex/internal/zverif/vhp"
)

func records(blocks []*vh.OBlock) (out []int64) {
	for _, o := range blocks {
		if o == nil {
			continue
		}
		for _, g := range o.Groups {
			for _, r := range g.Rels {
				out = append(out, r.ID)
				at := len(out)
				out = append(out, 0)
				for i, m := range r.Mems {
					if r.Types[i] == 1 {
						out[at]++
						out = append(out, -m)
					}
				}
			}
		}
	}
	return
}

func TestVerif_C20_extract(t *testing.T) {
	h := vh.Start(t, "C20", "files of 0-12 blocks with 0-12 relations per group and 0-40 members of all types, ids of any size, other sections and headers mixed in, 1-8 workers; non-trivial: distinct files")
	h.Budget(7e9, 80e9)
	dir := h.TempDir()
	for h.More(150) {
		g := vh.NewGen(h)
		g.Rels = 9
		g.Wild = h.Intn(3) == 0
		g.MaxN = 1 + h.Intn(12)
		bs, blocks := g.File(h.Size(12))
		workers := 1 + h.Intn(8)
		in := vh.Put(dir, "in.pbf", vh.EncFile(bs))
		out := filepath.Join(dir, "out.rel")
		h.Case(fmt.Sprintf("workers=%d %s", workers, vhp.FileText(bs, blocks)), func() string {
			ri := &relindexerinit.RelIndexerInitializer{}
			vhp.Process(in, ri.Worker(), ri.Output(out), workers)
			b, err := os.ReadFile(out)
			if err != nil {
				return err.Error()
			}
			if len(b)%8 != 0 {
				return fmt.Sprintf("%d bytes", len(b))
			}
			var got []int64
			for ; len(b) > 0; b = b[8:] {
				got = append(got, int64(binary.LittleEndian.Uint64(b)))
			}
			return vh.Diff(fmt.Sprint(got), fmt.Sprint(records(blocks)))
		})
	}
}

func TestVerif_C20_messages(t *testing.T) {
	h := vh.Start(t, "C20", "the messages of one worker: one per block, holding that block's records; non-trivial: distinct files")
	h.Budget(2e9, 20e9)
	for h.More(100) {
		g := vh.NewGen(h)
		g.Rels = 9
		bs, blocks := g.File(h.Size(8))
		h.Case(vhp.FileText(bs, blocks), func() string {
			ri := &relindexerinit.RelIndexerInitializer{}
			out, dead := vhp.RunWorker(ri.Worker(), vhp.Blocks(bs))
			if dead != "" {
				return dead
			}
			if len(out) != len(bs) {
				return fmt.Sprintf("%d messages for %d blocks", len(out), len(bs))
			}
			for i, m := range out {
				if m.Index != uint64(i) {
					return fmt.Sprintf("message %d has number %d", i, m.Index)
				}
				if blocks[i] == nil {
					if m.Type != bs[i].Type {
						return fmt.Sprintf("message %d has type %q", i, m.Type)
					}
					continue
				}
				got, ok := m.Data.([]int64)
				if !ok {
					return fmt.Sprintf("message %d holds %T", i, m.Data)
				}
				if d := vh.Diff(fmt.Sprint(got), fmt.Sprint(records(blocks[i:i+1]))); d != "" {
					return fmt.Sprintf("message %d %s", i, d)
				}
			}
			return ""
		})
	}
}
