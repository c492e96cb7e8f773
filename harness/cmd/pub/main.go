// Driver for everything reachable through the public API of ggfnt. A run operates on one
// "world": numbered fonts, settings caches, mapping caches, testers, builders and encoders.
package main

import (
	"bytes"
	"compress/gzip"
	"errors"
	"io"
	"os"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/mask"
	"github.com/tinne26/ggfnt/verifdrv/drv"
)

type m = map[string]any

type world struct {
	fonts   map[int]*ggfnt.Font
	sets    map[int]*ggfnt.SettingsCache
	caches  map[int]*ggfnt.MappingCache
	testers map[int]*tester
	pipes   map[int]*pipeline
	enc     mask.Encoder
	b       *bworld
	h       *hdates
	base    *rawBase
	bulk    bulk
	bulkVal uint8
	parsed  kept
	past    past
}

func newWorld() *world {
	return &world{
		fonts: map[int]*ggfnt.Font{}, sets: map[int]*ggfnt.SettingsCache{},
		caches: map[int]*ggfnt.MappingCache{}, testers: map[int]*tester{}, pipes: map[int]*pipeline{},
	}
}

func (w *world) font(op drv.Op) *ggfnt.Font {
	f := w.fonts[op.IntOr("f", 0)]
	if f == nil {
		panic("the font could not be opened")
	}
	return f
}

func (w *world) Do(op drv.Op) any {
	name := op.Str("op")
	if fn, ok := table[name]; ok {
		return fn(w, op)
	}
	panic(drv.HarnessError("unknown op " + name))
}

// noFont stands for the results on a font that could not be opened
var noFont = m{"nofont": true}

var table map[string]func(*world, drv.Op) any

func init() {
	table = map[string]func(*world, drv.Op) any{
		"open": opOpen, "date": opDate, "now": opNow, "years": opYears,
		"hnew": opHNew, "hset": opHSet, "hbuild": opHBuild,
		"rasterize": opRasterize, "encode": opEncode,
	}
	initFont()
	initBulk()
	initTesters()
	initPipelines()
	initMapping()
	initBuilder()
}

func bytesOf(v any) []byte {
	if s, ok := v.(string); ok { // hex
		out := make([]byte, len(s)/2)
		for i := range out {
			out[i] = unhex(s[2*i])<<4 | unhex(s[2*i+1])
		}
		return out
	}
	arr := drv.ToInts(v)
	out := make([]byte, len(arr))
	for i, e := range arr {
		out[i] = byte(e)
	}
	return out
}
func unhex(c byte) byte {
	if c >= 'a' {
		return c - 'a' + 10
	}
	return c - '0'
}

func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, e := range b {
		out[i] = int(e)
	}
	return out
}

// pack turns raw font data into a font stream
func pack(raw []byte) []byte {
	var buf bytes.Buffer
	buf.WriteString("tggfnt")
	w := gzip.NewWriter(&buf)
	w.Write(raw)
	w.Close()
	return buf.Bytes()
}

// opOpen parses a font given as raw (uncompressed) data, hex or list of bytes
func opOpen(w *world, op drv.Op) any {
	font, err := ggfnt.Parse(bytes.NewReader(pack(bytesOf(op["raw"]))))
	delete(op, "raw") // the trace refers to the description of the font, not to its bytes
	if err != nil {
		return m{"ok": false, "err": err.Error()}
	}
	w.fonts[op.IntOr("f", 0)] = font
	return m{"ok": true}
}

var errFail = errors.New("verif: read failure")

// chunkReader returns its data in chunks, optionally together with io.EOF, and optionally
// fails at a given offset
type chunkReader struct {
	data   []byte
	pos    int
	chunks []int
	k      int
	eof    bool // return io.EOF together with the last data
	failAt int  // -1 for never
	empty  int  // every this many calls an empty read is returned (0 for never)
	calls  int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	r.calls++
	if r.empty > 0 && r.calls%r.empty == 0 {
		return 0, nil
	}
	if r.failAt >= 0 && r.pos >= r.failAt {
		return 0, errFail
	}
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	n := len(p)
	if len(r.chunks) > 0 {
		n = min(n, r.chunks[r.k%len(r.chunks)])
		r.k++
	}
	n = min(n, len(r.data)-r.pos)
	if r.failAt >= 0 {
		n = min(n, r.failAt-r.pos)
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.eof && r.pos == len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

func main() {
	drv.Main(os.Args[2], os.Args[3], func(run drv.Run) drv.Exec {
		if os.Args[1] == "conc" {
			return &concExec{}
		}
		return newWorld()
	})
}

var _ = builder.New
