//verif: prop=C24 pkg=internal/pool race=1
package pool_test

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/squizzling/osmindex/cmd/decompress/decompressor"
	"github.com/squizzling/osmindex/cmd/nodeindex/indexer"
	"github.com/squizzling/osmindex/cmd/relindex/relindexerinit"
	"github.com/squizzling/osmindex/cmd/rewritenodes/rewriter"
	"github.com/squizzling/osmindex/cmd/tagfilter/tagfilterer"
	"github.com/squizzling/osmindex/cmd/wayindex/wayindexer"
	"github.com/squizzling/osmindex/internal/nodeindex"
	"github.com/squizzling/osmindex/internal/pbf"
	"github.com/squizzling/osmindex/internal/pool"
	"github.com/squizzling/osmindex/internal/zverif/vh"
	"github.com/squizzling/osmindex/internal/zverif/vhp"
)

func TestVerif_C24_sizes(t *testing.T) {
	h := vh.Start(t, "C24", "sequences of 1-60 takes and returns of buffers of 0-300000 bytes, from one pool; held buffers keep their content; non-trivial: distinct sequences")
	h.Budget(3e9, 40e9)
	for h.More(200) {
		def := uint64([]int{0, 1, 64, 65536}[h.Intn(4)])
		var sizes []uint64
		for k := 1 + h.Size(60); k > 0; k-- {
			n := uint64(h.Size(3000))
			if h.Intn(8) == 0 {
				n = uint64(h.Intn(300000))
			}
			sizes = append(sizes, n)
		}
		acts := h.Bytes(len(sizes))
		h.Case(fmt.Sprintf("default=%d sizes=%d returns=%x", def, sizes, acts), func() string {
			p := pool.NewByteSlicePool(def)
			type held struct {
				b    pool.BorrowedBuffer
				mark byte
			}
			var hs []held
			for i, n := range sizes {
				b := p.Get(n)
				if uint64(len(b.Buffer)) != n {
					return fmt.Sprintf("asked for %d bytes (number %d), got %d", n, i, len(b.Buffer))
				}
				full := b.Buffer[:cap(b.Buffer)]
				for j := range full {
					full[j] = byte(i + 1)
				}
				hs = append(hs, held{b, byte(i + 1)})
				for acts[i]&1 == 1 && len(hs) > 0 {
					k := int(acts[i]>>2) % len(hs)
					p.Put(hs[k].b)
					hs = append(hs[:k:k], hs[k+1:]...)
					acts[i] >>= 1
				}
				for _, x := range hs {
					for _, c := range x.b.Buffer {
						if c != x.mark {
							return fmt.Sprintf("a buffer in use was given out again (request %d)", i)
						}
					}
				}
			}
			return ""
		})
	}
}

func TestVerif_C24_views(t *testing.T) {
	h := vh.Start(t, "C24", "buffers that view other memory are returned between takes: never handed out; non-trivial: distinct sizes")
	h.Budget(1e9, 10e9)
	for h.More(200) {
		n, m := h.Intn(100000), h.Intn(70000)
		h.Case(fmt.Sprintf("view of %d bytes, take of %d", n, m), func() string {
			p := pool.NewByteSlicePool(16)
			view := make([]byte, n)
			bb := pool.NonBorrowedBuffer(view)
			if len(bb.Buffer) != n || n > 0 && &bb.Buffer[0] != &view[0] {
				return "the view is not the buffer it was made from"
			}
			p.Put(bb)
			for k := 0; k < 4; k++ {
				g := p.Get(uint64(m))
				for j := range g.Buffer {
					g.Buffer[j] = 0xaa
				}
			}
			for _, c := range view {
				if c != 0 {
					return "the memory of a view was handed out"
				}
			}
			return ""
		})
	}
}

// scribble keeps taking buffers, checks that they are its own, fills them, and gives them back.
func scribble(stop *int32, bad chan<- string, wg *sync.WaitGroup) {
	defer wg.Done()
	for k := 0; atomic.LoadInt32(stop) == 0; k++ {
		var bs [3]pool.BorrowedBuffer
		for i := range bs {
			bs[i] = pool.ByteSlice.Get(uint64(1 + k%4000))
			f := bs[i].Buffer[:cap(bs[i].Buffer)]
			for j := 0; j < len(f); j += 1 + len(f)/4000 {
				f[j] = byte(0xa0 + i)
			}
			for j := 0; j < 300 && j < len(f); j++ {
				f[j] = byte(0xa0 + i)
			}
		}
		for i := range bs {
			if bs[i].Buffer[0] != byte(0xa0+i) {
				select {
				case bad <- "one buffer was handed out twice at the same time":
				default:
				}
			}
			pool.ByteSlice.Put(bs[i])
		}
		runtime.Gosched()
	}
}

type tool struct {
	name string
	run  func(in, out string, ix *nodeindex.NodeIndex, workers int)
}

var tools = []tool{
	{"decompress", func(in, out string, ix *nodeindex.NodeIndex, w int) {
		d := &decompressor.Decompressor{}
		vhp.Process(in, d.Worker, d.Output(out), w)
	}},
	{"nodeindex", func(in, out string, ix *nodeindex.NodeIndex, w int) {
		d := &indexer.NodeIndexer{}
		vhp.Process(in, d.Worker, d.Output(out), w)
	}},
	{"wayindex", func(in, out string, ix *nodeindex.NodeIndex, w int) {
		d := &wayindexer.WayIndexer{}
		vhp.Process(in, d.Worker(3), d.Output(out, 3), w)
	}},
	{"rewritenodes", func(in, out string, ix *nodeindex.NodeIndex, w int) {
		d := &rewriter.NodeRewriter{}
		vhp.Process(in, d.Worker(ix.SubIndex(0, 1), true), d.Writer(out), w)
	}},
	{"relindex", func(in, out string, ix *nodeindex.NodeIndex, w int) {
		d := &relindexerinit.RelIndexerInitializer{}
		vhp.Process(in, d.Worker(), d.Output(out), w)
	}},
	{"tagfilter", func(in, out string, ix *nodeindex.NodeIndex, w int) {
		d := &tagfilterer.TagFilterer{}
		vhp.Process(in, d.Worker(), d.Writer(out), w)
	}},
}

func content(fn, tool string) string {
	b, err := os.ReadFile(fn)
	if err != nil {
		return err.Error()
	}
	if tool == "nodeindex" || tool == "wayindex" || tool == "relindex" {
		return string(b)
	}
	bs, err := vh.DecFile(b)
	if err != nil {
		return err.Error()
	}
	s := ""
	for _, x := range bs {
		s += fmt.Sprintf("%s %q\n", x.Type, x.Data)
	}
	return s
}

func TestVerif_C24_tools(t *testing.T) {
	h := vh.Start(t, "C24", "every tool's pipeline on compressed blocks while another goroutine takes, overwrites and returns pool buffers: the output equals that for the same blocks stored raw; race detector on; 1 processor and several; non-trivial: distinct (tool, file)")
	h.Budget(12e9, 120e9)
	dir := h.TempDir()
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	procs := runtime.GOMAXPROCS(0)
	var rs []vh.ORange
	r := vh.ORange{First: 1}
	for i := 0; i < 400; i++ {
		r.Locs = append(r.Locs, -1-h.Int63())
	}
	rs = append(rs, r)
	ix := nodeindex.NewNodeIndex(vh.Put(dir, "nodes.idx", vh.EncNodeIndex(rs)), nil)
	defer ix.Close()
	for k := 0; k < 3*len(tools) || h.More(30); k++ {
		tl := tools[k%len(tools)]
		g := vh.NewGen(h)
		g.Sorted = true
		g.MaxN = 1 + h.Intn(20)
		bs, blocks := g.File(1 + h.Intn(10))
		raw := make([]vh.OBlob, len(bs))
		for i := range bs {
			raw[i] = bs[i]
			raw[i].Zlib = false
			bs[i].Zlib = true
		}
		mix := bs
		if h.Intn(4) == 0 {
			mix = raw
		}
		rawIn := vh.Put(dir, "raw.pbf", vh.EncFile(raw))
		in := vh.Put(dir, "in.pbf", vh.EncFile(mix))
		workers := 1 + h.Intn(3)
		p := 1
		if h.Intn(2) == 0 {
			p = procs
		}
		h.Case(fmt.Sprintf("%s workers=%d processors=%d %s", tl.name, workers, p, vhp.FileText(mix, blocks)), func() string {
			tl.run(rawIn, filepath.Join(dir, "a"), ix, 1)
			want := content(filepath.Join(dir, "a"), tl.name)
			runtime.GOMAXPROCS(p)
			defer runtime.GOMAXPROCS(procs)
			var stop int32
			bad := make(chan string, 1)
			var wg sync.WaitGroup
			wg.Add(2)
			go scribble(&stop, bad, &wg)
			go scribble(&stop, bad, &wg)
			tl.run(in, filepath.Join(dir, "b"), ix, workers)
			got := content(filepath.Join(dir, "b"), tl.name)
			atomic.StoreInt32(&stop, 1)
			wg.Wait()
			select {
			case m := <-bad:
				return m
			default:
			}
			return vh.Diff(got, want)
		})
	}
}

// the message a worker sends stays as it is after the worker's buffer is used again
func TestVerif_C24_messages(t *testing.T) {
	h := vh.Start(t, "C24", "the messages of the decompress, rewritenodes and tagfilter workers are compared before and after the pool's buffers are overwritten; non-trivial: distinct (tool, file)")
	h.Budget(4e9, 40e9)
	dir := h.TempDir()
	ix := nodeindex.NewNodeIndex(vh.Put(dir, "nodes.idx", vh.EncNodeIndex([]vh.ORange{{First: 1, Locs: []int64{-5, -6, -7}}})), nil)
	defer ix.Close()
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(0))
	for h.More(30) {
		g := vh.NewGen(h)
		bs, blocks := g.File(1 + h.Intn(6))
		for i := range bs {
			bs[i].Zlib = true
		}
		which := h.Intn(3)
		runtime.GOMAXPROCS(1)
		h.Case(fmt.Sprintf("tool %d %s", which, vhp.FileText(bs, blocks)), func() string {
			var work pbf.WorkFunc
			switch which {
			case 0:
				work = (&decompressor.Decompressor{}).Worker
			case 1:
				work = (&rewriter.NodeRewriter{}).Worker(ix.SubIndex(0, 1), true)
			case 2:
				work = (&tagfilterer.TagFilterer{}).Worker()
			}
			in, res := make(chan pbf.Block), make(chan pbf.Block)
			go func() {
				work(context.Background(), in, res)
				close(res)
			}()
			go func() {
				for _, b := range vhp.Blocks(bs) {
					in <- b
				}
				close(in)
			}()
			for b := range res {
				d, ok := b.Data.([]byte)
				if !ok {
					continue
				}
				keep := append([]byte(nil), d...)
				for k := 0; k < 6; k++ {
					x := pool.ByteSlice.Get(1)
					f := x.Buffer[:cap(x.Buffer)]
					for j := range f {
						f[j] = 0xaa
					}
				}
				if !bytes.Equal(d, keep) {
					return fmt.Sprintf("the message for block %d lies in a buffer of the pool", b.Index)
				}
			}
			return ""
		})
	}
}
