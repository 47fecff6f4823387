// Package vhp runs the tools' worker and writer steps on files and on single blocks.
package vhp

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/edsrzf/mmap-go"

	"github.com/squizzling/osmindex/internal/pbf"
	"github.com/squizzling/osmindex/internal/zverif/vh"
)

// Process runs a whole file through a worker and a writer step.
func Process(fn string, work pbf.WorkFunc, write pbf.WriteFunc, workers int) {
	pbf.ProcessFileAsync(context.Background(), fn, work, write, workers).Wait()
}

// Msg is what a worker sent for one block; Bytes is set when the data is bytes, copied when the message was received.
type Msg struct {
	Index uint64
	Type  string
	Data  interface{}
	Bytes []byte
}

func bytesOf(d interface{}) []byte {
	switch x := d.(type) {
	case []byte:
		return x
	case mmap.MMap:
		return x
	}
	return nil
}

// Blocks frames blobs as work items in the way the file reader does.
func Blocks(bs []vh.OBlob) (out []pbf.Block) {
	for i, b := range bs {
		out = append(out, pbf.Block{Index: uint64(i), Data: mmap.MMap(vh.EncBlob(b.Data, b.Zlib)), BlobType: b.Type})
	}
	return
}

// RunWorker sends the items to one worker in the given order and returns what it sent, in order.
// A panic of the worker is returned as text.
func RunWorker(work pbf.WorkFunc, items []pbf.Block) (out []Msg, msg string) {
	in, res := make(chan pbf.Block), make(chan pbf.Block)
	dead := make(chan string, 1)
	go func() {
		dead <- vh.Panics(func() { work(context.Background(), in, res) })
		close(res)
	}()
	go func() {
		defer close(in)
		for _, b := range items {
			select {
			case in <- b:
			case m := <-dead:
				dead <- m
				return
			}
		}
	}()
	for b := range res {
		out = append(out, Msg{b.Index, b.BlobType, b.Data, append([]byte(nil), bytesOf(b.Data)...)})
	}
	return out, <-dead
}

// RunWriter feeds messages to a writer step.
func RunWriter(write pbf.WriteFunc, items []pbf.Block) (msg string) {
	in := make(chan pbf.Block)
	dead := make(chan string, 1)
	go func() {
		dead <- vh.Panics(func() { write(context.Background(), in) })
	}()
	for _, b := range items {
		select {
		case in <- b:
		case m := <-dead:
			return "writer stopped early: " + m
		}
	}
	close(in)
	select {
	case m := <-dead:
		return m
	case <-time.After(30 * time.Second):
		return "writer does not end"
	}
}

// Child runs one test of this test binary in its own process and returns its output;
// failed tells whether the process failed (a panic anywhere makes it fail).
func Child(test string, env ...string) (out string, failed bool) {
	c := exec.Command(os.Args[0], "-test.run=^"+test+"$", "-test.timeout=60s")
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "VERIF_REPORT=") {
			c.Env = append(c.Env, e)
		}
	}
	c.Env = append(c.Env, "VERIF_CHILD=1")
	c.Env = append(c.Env, env...)
	b, err := c.CombinedOutput()
	return string(b), err != nil
}

// IsChild tells whether this process was started by Child.
func IsChild() bool { return os.Getenv("VERIF_CHILD") != "" }

// FileText describes an input file for reports.
func FileText(bs []vh.OBlob, blocks []*vh.OBlock) string {
	var s strings.Builder
	for i, b := range bs {
		if blocks[i] != nil {
			fmt.Fprintf(&s, "[%d %s zlib=%v %s] ", i, b.Type, b.Zlib, blocks[i].Dump())
		} else {
			fmt.Fprintf(&s, "[%d %s zlib=%v %x] ", i, b.Type, b.Zlib, b.Data)
		}
	}
	return s.String()
}
