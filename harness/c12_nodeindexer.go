//verif: prop=C12 pkg=cmd/nodeindex/indexer
package indexer_test

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"testing"

	"github.com/squizzling/osmindex/cmd/nodeindex/indexer"
	"github.com/squizzling/osmindex/internal/morton"
	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/zverif/vh"
	"github.com/squizzling/osmindex/internal/zverif/vhp"
)

func code(o *vh.OBlock, lat, lon int64) int64 {
	la := int32((o.LatOff + int64(o.Gran)*lat) / 100)
	lo := int32((o.LonOff + int64(o.Gran)*lon) / 100)
	var x uint64
	e, d := uint32(lo), uint32(la)|1<<31
	for i := uint(0); i < 32; i++ {
		x |= uint64(e>>i&1)<<(2*i) | uint64(d>>i&1)<<(2*i+1)
	}
	return int64(x)
}

// CheckIndex compares a finished index with the nodes of the input.
func checkIndex(h *vh.H, fn string, blocks []*vh.OBlock) string {
	want := map[uint64]int64{}
	n := 0
	for _, o := range blocks {
		if o == nil {
			continue
		}
		for _, g := range o.Groups {
			if g.Dense == nil {
				continue
			}
			for i, id := range g.Dense.Id {
				want[uint64(id)] = code(o, g.Dense.Lat[i], g.Dense.Lon[i])
				n++
			}
		}
	}
	if n != len(want) {
		return "the generated ids are not distinct"
	}
	b, err := os.ReadFile(fn)
	if err != nil {
		return err.Error()
	}
	rs, err := vh.DecNodeIndex(b)
	if err != nil {
		return err.Error()
	}
	seen := map[uint64]bool{}
	for i := range rs {
		r := &rs[i]
		if len(r.Locs) == 0 {
			return fmt.Sprintf("empty range at %d", r.First)
		}
		if i > 0 && r.First <= rs[i-1].Last() {
			return fmt.Sprintf("range %d-%d is not above %d-%d", r.First, r.Last(), rs[i-1].First, rs[i-1].Last())
		}
		for k, l := range r.Locs {
			id := r.First + uint64(k)
			if w := want[id]; w != l {
				return fmt.Sprintf("slot of id %d holds %#x, want %#x", id, uint64(l), uint64(w))
			}
			seen[id] = true
		}
	}
	for id := range want {
		if !seen[id] {
			return fmt.Sprintf("node %d is in no range", id)
		}
	}
	if _, err := os.Stat(fn + ".loc.tmp"); err == nil {
		return "the temporary location file is left behind"
	}
	idx := nodeindex.NewNodeIndex(fn, nil)
	defer idx.Close()
	si := idx.SubIndex(0, 1)
	hint := 0
	for id, w := range want {
		for _, d := range []uint64{0, 1, ^uint64(0), 2} {
			l, nh, ok := si.FindNode(id+d, hint)
			hint = nh
			if x := want[id+d]; l != x || ok != (x != 0) {
				return fmt.Sprintf("looking up %d gives %#x %v, want %#x", id+d, uint64(l), ok, uint64(x))
			}
		}
		if lon, lat := morton.DecodeLocation(uint64(w)); w >= 0 || int64(morton.Encode(lon, lat|math.MinInt32)) != w {
			return fmt.Sprintf("code %#x of node %d", uint64(w), id)
		}
	}
	return ""
}

func TestVerif_C12_build(t *testing.T) {
	h := vh.Start(t, "C12", "files of 0-12 blocks with ascending node ids (runs, single gaps, double gaps, jumps; groups split anywhere; all granularities and offsets), other sections and headers mixed in, 1-8 workers; non-trivial: distinct files")
	h.Budget(10e9, 120e9)
	dir := h.TempDir()
	for h.More(150) {
		g := vh.NewGen(h)
		g.Sorted = true
		g.Dense = 9
		g.MaxN = 1 + h.Intn(30)
		if h.Intn(4) == 0 {
			g.NextN = h.Int63() >> uint(1+h.Intn(40))
		}
		bs, blocks := g.File(h.Size(12))
		workers := 1 + h.Intn(8)
		in := vh.Put(dir, "in.pbf", vh.EncFile(bs))
		out := filepath.Join(dir, "out.idx")
		h.Case(fmt.Sprintf("workers=%d %s", workers, vhp.FileText(bs, blocks)), func() string {
			ni := &indexer.NodeIndexer{}
			vhp.Process(in, ni.Worker, ni.Output(out), workers)
			return checkIndex(h, out, blocks)
		})
	}
}

// one block with many ids, so that counts and offsets leave the small numbers
func TestVerif_C12_large(t *testing.T) {
	h := vh.Start(t, "C12", "blocks of 40000-90000 nodes in few ranges; non-trivial: distinct files")
	h.Budget(3e9, 40e9)
	dir := h.TempDir()
	for h.More(2) {
		var bs []vh.OBlob
		var blocks []*vh.OBlock
		next := int64(h.Intn(10))
		for k := 1 + h.Intn(3); k > 0; k-- {
			o := vh.NewOBlock()
			d := &vh.ODense{}
			for n := 40000 + h.Intn(50000); n > 0; n-- {
				d.Id = append(d.Id, next)
				d.Lat = append(d.Lat, int64(h.Intn(1800000000)-900000000))
				d.Lon = append(d.Lon, int64(h.Intn(3600000000)-1800000000))
				next++
				if h.Intn(5000) == 0 {
					next += int64(h.Intn(5))
				}
			}
			o.Groups = []*vh.OGroup{{Dense: d}}
			blocks = append(blocks, o)
			bs = append(bs, vh.OBlob{Type: "OSMData", Data: o.Enc()})
		}
		in := vh.Put(dir, "in.pbf", vh.EncFile(bs))
		out := filepath.Join(dir, "out.idx")
		h.Case(fmt.Sprintf("%d large blocks, last id %d", len(bs), next), func() string {
			ni := &indexer.NodeIndexer{}
			vhp.Process(in, ni.Worker, ni.Output(out), 2)
			return checkIndex(h, out, blocks)
		})
	}
}

func TestVerif_C12_tool(t *testing.T) {
	h := vh.Start(t, "C12", "the nodeindex command on small files; non-trivial: distinct files")
	h.Budget(1e9, 10e9)
	dir := h.TempDir()
	bin := vh.Tool(h, "nodeindex")
	for h.More(10) {
		g := vh.NewGen(h)
		g.Sorted = true
		bs, blocks := g.File(h.Size(6))
		in := vh.Put(dir, "in.pbf", vh.EncFile(bs))
		h.Case(vhp.FileText(bs, blocks), func() string {
			if out, err := vh.Run(dir, bin, "-r", "0", "-i", in, "-o", "out.idx", "-w", fmt.Sprint(1+h.Intn(4))); err != nil {
				return err.Error() + ": " + out
			}
			return checkIndex(h, filepath.Join(dir, "out.idx"), blocks)
		})
	}
}
