//verif: prop=C28 pkg=internal/pbf
package pbf_test

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/squizzling/osmindex/internal/zverif/vh"
	"github.com/squizzling/osmindex/internal/zverif/vhp"
)

var found = regexp.MustCompile(`HL(Node|Way|Relation)\{.*?\bId:(-?[0-9a-fx]+)`)

func TestVerif_C28_find(t *testing.T) {
	h := vh.Start(t, "C28", "the entityfind command on files of 0-12 blocks with ids repeated over kinds and blocks, 1-6 requested ids (present, absent, repeated), 1-8 workers; non-trivial: distinct (file, ids)")
	h.Budget(7e9, 80e9)
	dir := h.TempDir()
	bin := vh.Tool(h, "entityfind")
	for h.More(60) {
		g := vh.NewGen(h)
		g.MaxN = 1 + h.Intn(10)
		bs, blocks := g.File(h.Size(12))
		var ids []uint64
		for k := 1 + h.Intn(6); k > 0; k-- {
			ids = append(ids, uint64(1+h.Intn(220)))
		}
		ask := map[int64]bool{}
		args := []string{}
		for _, id := range ids {
			ask[int64(id)] = true
			args = append(args, "-e", fmt.Sprint(id))
		}
		var want []string
		for _, o := range blocks {
			if o == nil {
				continue
			}
			ns, ws, rs, err := o.Entities()
			if err != nil {
				t.Fatal(err)
			}
			for _, n := range ns {
				if ask[n.Id] {
					want = append(want, fmt.Sprint("Node ", n.Id))
				}
			}
			for _, w := range ws {
				if ask[w.Id] {
					want = append(want, fmt.Sprint("Way ", w.Id))
				}
			}
			for _, r := range rs {
				if ask[r.Id] {
					want = append(want, fmt.Sprint("Relation ", r.Id))
				}
			}
		}
		sort.Strings(want)
		workers := 1 + h.Intn(8)
		in := vh.Put(dir, "in.pbf", vh.EncFile(bs))
		h.Case(fmt.Sprintf("ids=%d workers=%d %s", ids, workers, vhp.FileText(bs, blocks)), func() string {
			out, err := vh.Run(dir, bin, append([]string{"-i", in, "-w", fmt.Sprint(workers)}, args...)...)
			if err != nil {
				return err.Error() + ": " + out
			}
			var got []string
			for _, l := range strings.Split(strings.TrimSpace(out), "\n") {
				if l == "" {
					continue
				}
				m := found.FindStringSubmatch(l)
				if m == nil {
					return fmt.Sprintf("line %q names no entity", l)
				}
				id, err := strconv.ParseInt(m[2], 0, 64)
				if err != nil {
					return fmt.Sprintf("line %q: %s", l, err)
				}
				got = append(got, fmt.Sprint(m[1], " ", id))
			}
			sort.Strings(got)
			return vh.Diff(fmt.Sprint(got), fmt.Sprint(want))
		})
	}
}

func TestVerif_C28_blocks(t *testing.T) {
	h := vh.Start(t, "C28", "the blockcount command on files of 0-200 blocks, 1-16 workers; non-trivial: distinct (blocks, workers)")
	h.Budget(2e9, 20e9)
	dir := h.TempDir()
	bin := vh.Tool(h, "blockcount")
	for h.More(40) {
		n, workers := h.Size(200), 1+h.Intn(16)
		in := vh.Put(dir, "in.pbf", tinyBlocks(h, n))
		h.Case(fmt.Sprintf("blocks=%d workers=%d", n, workers), func() string {
			out, err := vh.Run(dir, bin, "-i", in, "-w", fmt.Sprint(workers))
			if err != nil {
				return err.Error() + ": " + out
			}
			if w := fmt.Sprintf("Counted %d blocks\n", n); !strings.HasPrefix(out, w) {
				return fmt.Sprintf("prints %q, want %q", out, w)
			}
			return ""
		})
	}
}

func tinyBlocks(h *vh.H, n int) []byte {
	var bs []vh.OBlob
	for i := 0; i < n; i++ {
		bs = append(bs, vh.OBlob{Type: []string{"OSMData", "OSMHeader"}[h.Intn(2)], Data: h.Bytes(h.Intn(5))})
	}
	return vh.EncFile(bs)
}
