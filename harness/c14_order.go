//verif: prop=C14 pkg=internal/pbf
package pbf_test

import (
	"context"
	"fmt"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/squizzling/osmindex/internal/pbf"
	"github.com/squizzling/osmindex/internal/zverif/vh"
	"github.com/squizzling/osmindex/internal/zverif/vhp"
)

func tinyFile(n int) []byte {
	var bs []vh.OBlob
	for i := 0; i < n; i++ {
		bs = append(bs, vh.OBlob{Type: []string{"OSMData", "OSMHeader"}[i%7/6], Data: []byte(fmt.Sprint("block ", i))})
	}
	return vh.EncFile(bs)
}

// order lets one worker hold every block and send them on in the given order
func permWorker(perm []int) pbf.WorkFunc {
	return func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		var held []pbf.Block
		for b := range in {
			held = append(held, b)
		}
		for _, i := range perm {
			out <- pbf.Block{Index: held[i].Index, Data: i, BlobType: "x"}
		}
	}
}

func collect(got *[]string) pbf.WriteFunc {
	return func(ctx context.Context, in <-chan pbf.Block) {
		for b := range in {
			*got = append(*got, fmt.Sprintf("%d:%v:%s", b.Index, b.Data, b.BlobType))
		}
	}
}

func wantOrder(n int) string {
	var s []string
	for i := 0; i < n; i++ {
		s = append(s, fmt.Sprintf("%d:%d:x", i, i))
	}
	return strings.Join(s, " ")
}

func TestVerif_C14_permutations(t *testing.T) {
	h := vh.Start(t, "C14", "all orders of up to 6 blocks, then random orders (shuffles, reversals, rotations, one block last) of up to 3000 blocks; non-trivial: distinct orders")
	h.Budget(4e9, 60e9)
	dir := h.TempDir()
	files := map[int]string{}
	run := func(perm []int) {
		n := len(perm)
		if files[n] == "" {
			files[n] = vh.Put(dir, fmt.Sprint(n, ".pbf"), tinyFile(n))
		}
		h.Case(fmt.Sprint("order of arrival ", perm), func() string {
			var got []string
			vhp.Process(files[n], permWorker(perm), collect(&got), 1)
			return vh.Diff(strings.Join(got, " "), wantOrder(n))
		})
	}
	var all func(p []int, used int, n int)
	all = func(p []int, used int, n int) {
		if len(p) == n {
			run(append([]int(nil), p...))
			return
		}
		for i := 0; i < n; i++ {
			if used>>uint(i)&1 == 0 {
				all(append(p, i), used|1<<uint(i), n)
			}
		}
	}
	for n := 0; n <= 6; n++ {
		all(nil, 0, n)
	}
	for h.More(1200) {
		n := h.Size(200)
		if h.Intn(50) == 0 {
			n = 1000 + h.Intn(2000)
		}
		perm := h.Perm(n)
		switch h.Intn(5) {
		case 0:
			for i := range perm {
				perm[i] = n - 1 - i
			}
		case 1:
			for i := range perm {
				perm[i] = (i + 1) % n
			}
		case 2:
			for i := range perm {
				perm[i] = i
			}
			for k := 0; k < 3 && n > 0; k++ {
				i, j := h.Intn(n), h.Intn(n)
				perm[i], perm[j] = perm[j], perm[i]
			}
		}
		run(perm)
	}
}

func TestVerif_C14_workers(t *testing.T) {
	h := vh.Start(t, "C14", "1-16 concurrent workers which pause at random before they send, 0-120 blocks; non-trivial: distinct (blocks, workers, pauses)")
	h.Budget(4e9, 60e9)
	dir := h.TempDir()
	for h.More(40) {
		n, workers := h.Intn(120), 1+h.Intn(16)
		pause := make([]int, n)
		for i := range pause {
			if h.Intn(4) == 0 {
				pause[i] = h.Intn(300)
			}
		}
		fn := vh.Put(dir, "in.pbf", tinyFile(n))
		h.Case(fmt.Sprintf("blocks=%d workers=%d pauses=%v", n, workers, pause), func() string {
			var got []string
			vhp.Process(fn, func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
				for b := range in {
					if p := pause[b.Index]; p > 0 {
						time.Sleep(time.Duration(p) * time.Microsecond)
					}
					out <- pbf.Block{Index: b.Index, Data: b.Index, BlobType: "x"}
				}
			}, collect(&got), workers)
			return vh.Diff(strings.Join(got, " "), wantOrder(n))
		})
	}
}

// run as its own process: a worker loses one block
func TestZChildDrop(t *testing.T) {
	if !vhp.IsChild() {
		t.Skip()
	}
	n, _ := strconv.Atoi(os.Getenv("Z_N"))
	drop, _ := strconv.Atoi(os.Getenv("Z_DROP"))
	d, err := os.MkdirTemp("", "drop")
	if err != nil {
		t.Skip()
	}
	defer os.RemoveAll(d)
	fn := vh.Put(d, "in.pbf", tinyFile(n))
	var got []string
	vhp.Process(fn, func(ctx context.Context, in <-chan pbf.Block, out chan<- pbf.Block) {
		for b := range in {
			if int(b.Index) != drop {
				out <- pbf.Block{Index: b.Index, Data: b.Index, BlobType: "x"}
			}
		}
	}, collect(&got), 2)
	fmt.Println("ENDED", got)
}

func TestVerif_C14_lost(t *testing.T) {
	h := vh.Start(t, "C14", "files of 1-40 blocks of which a worker loses one that is not the last: the program stops with a failure; non-trivial: distinct (blocks, lost block)")
	h.Budget(2e9, 20e9)
	for h.More(8) {
		n := 2 + h.Intn(39)
		drop := h.Intn(n - 1)
		h.Case(fmt.Sprintf("block %d of %d is lost", drop, n), func() string {
			out, failed := vhp.Child("TestZChildDrop", fmt.Sprint("Z_N=", n), fmt.Sprint("Z_DROP=", drop))
			if !failed || strings.Contains(out, "ENDED") {
				return "the program ends normally: " + out
			}
			return ""
		})
	}
}
