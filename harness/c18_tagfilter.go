//verif: prop=C18 pkg=cmd/tagfilter/tagfilterer
package tagfilterer_test

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/squizzling/osmindex/cmd/tagfilter/tagfilterer"
	"github.com/squizzling/osmindex/internal/zverif/vh"
	"github.com/squizzling/osmindex/internal/zverif/vhp"
)

// the lists the tool documents
var listed = strings.Fields(`note source source_ref attribution comment fixme created_by odbl odbl:note project:eurosha_2012 ref:UrbIS accuracy:meters
 sub_sea:type waterway:type statscan:rbuid ref:ruian:addr ref:ruian building:ruian:type dibavod:id uir_adr:ADRESA_KOD gst:feat_id maaamet:ETAK ref:FR:FANTOIR
 3dshapes:ggmodelk AND_nosr_r OPPDATERIN addr:city:simc addr:street:sym_ul building:usage:pl building:use:pl teryt:simc raba:id dcgis:gis_id nycdoitt:bin
 chicago:building_id lojic:bgnum massgis:way_id import import_uuid OBJTYPE SK53_bulk:load`)
var prefixes = strings.Fields(`note: source: CLC: geobase: canvec: osak: kms: ngbe: it:fvg: KSJ2: yh: LINZ2OSM: linz2osm: LINZ: WroclawGIS: naptan: tiger: gnis: NHD: nhd: mvdgis:`)

func drop(k string) bool {
	for _, l := range listed {
		if k == l {
			return true
		}
	}
	for _, p := range prefixes {
		if strings.HasPrefix(k, p) {
			return true
		}
	}
	return false
}

// want is the content the output must have, one text per written block
func want(bs []vh.OBlob, blocks []*vh.OBlock) (out []string, err error) {
	for i, o := range blocks {
		if o == nil {
			out = append(out, fmt.Sprintf("%s %x", bs[i].Type, vh.EncBlob(bs[i].Data, bs[i].Zlib)))
			continue
		}
		ns, ws, rs, e := o.Entities()
		if e != nil {
			return nil, e
		}
		var keep []*vh.HNode
		for _, n := range ns {
			m := map[string]string{}
			for k, v := range n.Tags {
				if !drop(k) {
					m[k] = v
				}
			}
			if len(m) > 0 {
				keep = append(keep, &vh.HNode{Id: n.Id, Lat: n.Lat / 100 * 100, Lon: n.Lon / 100 * 100, Tags: m})
			}
		}
		if len(keep)+len(ws)+len(rs) == 0 {
			continue
		}
		out = append(out, vh.DumpEntities(keep, ws, rs))
	}
	return
}

func checkFile(fn string, bs []vh.OBlob, blocks []*vh.OBlock) string {
	w, err := want(bs, blocks)
	if err != nil {
		return "generator: " + err.Error()
	}
	b, err := os.ReadFile(fn)
	if err != nil {
		return err.Error()
	}
	raw, err := vh.RawFrames(b)
	if err != nil {
		return err.Error()
	}
	got, err := vh.DecFile(b)
	if err != nil {
		return err.Error()
	}
	if len(got) != len(w) {
		return fmt.Sprintf("%d blocks, want %d", len(got), len(w))
	}
	for i := range got {
		s := fmt.Sprintf("%s %x", raw[i].Type, raw[i].Data)
		if got[i].Type == "OSMData" {
			o, err := vh.DecOBlock(got[i].Data)
			if err != nil {
				return fmt.Sprintf("block %d: %s", i, err)
			}
			if o.Gran != 100 || o.LatOff != 0 || o.LonOff != 0 {
				return fmt.Sprintf("block %d: resolution %d, offsets %d %d", i, o.Gran, o.LatOff, o.LonOff)
			}
			ns, ws, rs, err := o.Entities()
			if err != nil {
				return fmt.Sprintf("block %d: %s", i, err)
			}
			s = vh.DumpEntities(ns, ws, rs)
		}
		if m := vh.Diff(s, w[i]); m != "" {
			return fmt.Sprintf("block %d %s", i, m)
		}
	}
	return ""
}

func gen(h *vh.H) ([]vh.OBlob, []*vh.OBlock) {
	g := vh.NewGen(h)
	g.Dense = 9
	g.MaxN = 1 + h.Intn(10)
	var strs []string
	strs = append(strs, "", "a", "name", "highway")
	for n := 6; n > 0; n-- {
		l, p := listed[h.Intn(len(listed))], prefixes[h.Intn(len(prefixes))]
		switch h.Intn(8) {
		case 0:
			strs = append(strs, l+"x", "x"+p)
		case 1:
			strs = append(strs, l[:len(l)-1], p[:len(p)-1])
		case 2:
			strs = append(strs, p, p+l, strings.ToUpper(l), strings.ToUpper(p)+"x")
		default:
			strs = append(strs, l, p+"foo")
		}
	}
	g.Strs = strs
	if h.Intn(4) == 0 {
		g.Ways, g.Rels = 0, 0
	}
	return g.File(h.Size(10))
}

func TestVerif_C18_keys(t *testing.T) {
	h := vh.Start(t, "C18", "every listed key and prefix with one node each, and their near misses (longer, shorter, other case, prefix inside); non-trivial: distinct keys")
	h.Budget(2e9, 5e9)
	dir := h.TempDir()
	var keys []string
	for _, l := range listed {
		keys = append(keys, l, l+":", l+"s", "x"+l, l[:len(l)-1], strings.ToUpper(l), strings.ToLower(l), " "+l)
	}
	for _, p := range prefixes {
		keys = append(keys, p, p+"x", p+p, "x"+p, p[:len(p)-1], p[:len(p)-1]+"x", strings.ToUpper(p)+"y", strings.ToLower(p)+"y")
	}
	keys = append(keys, "name", "ref", "ref:", "addr:city", "building", "not", "sourc")
	for i := 0; i < len(keys); i += 25 {
		var bs []vh.OBlob
		var blocks []*vh.OBlock
		var used []string
		for j := i; j < i+25 && j < len(keys); j++ {
			o := vh.NewOBlock()
			o.Strings = []string{"", keys[j], "v", "name"}
			d := &vh.ODense{Id: []int64{1, 2, 3}, Lat: []int64{1, 2, 3}, Lon: []int64{4, 5, 6}, KV: []int32{1, 2, 0, 0, 1, 2, 3, 2, 0}}
			o.Groups = []*vh.OGroup{{Dense: d}}
			used = append(used, keys[j])
			blocks = append(blocks, o)
			bs = append(bs, vh.OBlob{Type: "OSMData", Data: o.Enc(), Zlib: j%2 == 0})
		}
		in := vh.Put(dir, "in.pbf", vh.EncFile(bs))
		out := filepath.Join(dir, "out.pbf")
		h.Case(fmt.Sprintf("keys %q", used), func() string {
			tf := &tagfilterer.TagFilterer{}
			vhp.Process(in, tf.Worker(), tf.Writer(out), 3)
			return checkFile(out, bs, blocks)
		})
	}
}

func TestVerif_C18_files(t *testing.T) {
	h := vh.Start(t, "C18", "files of 0-10 blocks whose nodes, ways and relations carry listed keys, near misses and others, all granularities and offsets, 1-6 workers; non-trivial: distinct files")
	h.Budget(8e9, 90e9)
	dir := h.TempDir()
	for h.More(100) {
		bs, blocks := gen(h)
		workers := 1 + h.Intn(6)
		in := vh.Put(dir, "in.pbf", vh.EncFile(bs))
		out := filepath.Join(dir, "out.pbf")
		h.Case(fmt.Sprintf("workers=%d %s", workers, vhp.FileText(bs, blocks)), func() string {
			tf := &tagfilterer.TagFilterer{}
			vhp.Process(in, tf.Worker(), tf.Writer(out), workers)
			return checkFile(out, bs, blocks)
		})
	}
}

// one message per block, with the block's number
func TestVerif_C18_messages(t *testing.T) {
	h := vh.Start(t, "C18", "the messages of one worker for 0-10 blocks: one each, numbered, a filler exactly when nothing remains; non-trivial: distinct files")
	h.Budget(3e9, 30e9)
	for h.More(100) {
		bs, blocks := gen(h)
		h.Case(vhp.FileText(bs, blocks), func() string {
			tf := &tagfilterer.TagFilterer{}
			out, dead := vhp.RunWorker(tf.Worker(), vhp.Blocks(bs))
			if dead != "" {
				return dead
			}
			if len(out) != len(bs) {
				return fmt.Sprintf("%d messages for %d blocks", len(out), len(bs))
			}
			for i, m := range out {
				w, err := want(bs[i:i+1], blocks[i:i+1])
				if err != nil {
					return err.Error()
				}
				typ := bs[i].Type
				if len(w) == 0 {
					typ = "Filler"
				}
				if m.Index != uint64(i) || m.Type != typ {
					return fmt.Sprintf("message %d: number %d type %q, want type %q", i, m.Index, m.Type, typ)
				}
			}
			return ""
		})
	}
}

func TestVerif_C18_tool(t *testing.T) {
	h := vh.Start(t, "C18", "the tagfilter command; non-trivial: distinct files")
	h.Budget(1e9, 10e9)
	dir := h.TempDir()
	bin := vh.Tool(h, "tagfilter")
	for h.More(10) {
		bs, blocks := gen(h)
		in := vh.Put(dir, "in.pbf", vh.EncFile(bs))
		h.Case(vhp.FileText(bs, blocks), func() string {
			if out, err := vh.Run(dir, bin, "-r", "0", "-i", in, "-o", "out.pbf", "-w", fmt.Sprint(1+h.Intn(4))); err != nil {
				return err.Error() + ": " + out
			}
			return checkFile(filepath.Join(dir, "out.pbf"), bs, blocks)
		})
	}
}
