//verif: prop=C16 pkg=cmd/decompress/decompressor
package decompressor_test

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"testing"

	"github.com/squizzling/osmindex/cmd/decompress/decompressor"
	"github.com/squizzling/osmindex/internal/zverif/vh"
	"github.com/squizzling/osmindex/internal/zverif/vhp"
)

func checkOut(fn string, bs []vh.OBlob) string {
	b, err := os.ReadFile(fn)
	if err != nil {
		return err.Error()
	}
	got, err := vh.DecFile(b)
	if err != nil {
		return fmt.Sprintf("%s after %d blocks", err, len(got))
	}
	if len(got) != len(bs) {
		return fmt.Sprintf("%d blocks, want %d", len(got), len(bs))
	}
	for i := range bs {
		if got[i].Type != bs[i].Type {
			return fmt.Sprintf("block %d has type %q, want %q", i, got[i].Type, bs[i].Type)
		}
		if got[i].Zlib {
			return fmt.Sprintf("block %d is still compressed", i)
		}
		if !bytes.Equal(got[i].Data, bs[i].Data) {
			return fmt.Sprintf("block %d holds %d bytes %.200x, want %d bytes %.200x", i, len(got[i].Data), got[i].Data, len(bs[i].Data), bs[i].Data)
		}
	}
	return ""
}

func genFile(h *vh.H) (bs []vh.OBlob, desc string) {
	for n := h.Size(25); n > 0; n-- {
		var d []byte
		switch h.Intn(8) {
		case 0:
		case 1:
			d = h.Bytes(h.Intn(100000))
		case 2:
			d = bytes.Repeat([]byte{byte(h.Intn(256))}, h.Intn(300000))
		default:
			d = h.Bytes(h.Intn(200))
		}
		b := vh.OBlob{Type: []string{"OSMData", "OSMHeader"}[h.Intn(2)], Data: d, Zlib: h.Intn(2) == 0}
		bs = append(bs, b)
		desc += fmt.Sprintf(" [%s zlib=%v %d bytes %.40x]", b.Type, b.Zlib, len(d), d)
	}
	return
}

func TestVerif_C16_files(t *testing.T) {
	h := vh.Start(t, "C16", "files of 0-25 raw and compressed blocks with 0-300000 bytes of any content (empty, tiny, random, repetitive), 1-8 workers; non-trivial: distinct files")
	h.Budget(7e9, 80e9)
	dir := h.TempDir()
	for h.More(100) {
		bs, desc := genFile(h)
		workers := 1 + h.Intn(8)
		in := vh.Put(dir, "in.pbf", vh.EncFile(bs))
		out := filepath.Join(dir, "out.pbf")
		h.Case(fmt.Sprintf("workers=%d%s", workers, desc), func() string {
			d := &decompressor.Decompressor{}
			vhp.Process(in, d.Worker, d.Output(out), workers)
			return checkOut(out, bs)
		})
	}
}

func TestVerif_C16_tool(t *testing.T) {
	h := vh.Start(t, "C16", "the decompress command; non-trivial: distinct files")
	h.Budget(1e9, 10e9)
	dir := h.TempDir()
	bin := vh.Tool(h, "decompress")
	for h.More(10) {
		bs, desc := genFile(h)
		in := vh.Put(dir, "in.pbf", vh.EncFile(bs))
		h.Case(desc, func() string {
			if out, err := vh.Run(dir, bin, "-r", "0", "-i", in, "-o", "out.pbf", "-w", fmt.Sprint(1+h.Intn(4))); err != nil {
				return err.Error() + ": " + out
			}
			return checkOut(filepath.Join(dir, "out.pbf"), bs)
		})
	}
}
