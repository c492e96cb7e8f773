package main

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"errors"
	"io"
	"io/fs"
	"os"
	"time"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/verifdrv/drv"

	"image/color"
)

func str(s string) []int { return ints([]byte(s)) }

// dumpFont asks a font for everything its accessors can tell. The names, code points and
// pairs to ask for are part of the operation.
func dumpFont(f *ggfnt.Font, op drv.Op) m {
	h := f.Header()
	id := []int{}
	for i := 0; i < 8; i++ {
		id = append(id, int(h.ID()>>(8*i)&255))
	}
	header := m{
		"fmt": int(h.FormatVersion()), "id": id, "major": int(h.VersionMajor()), "minor": int(h.VersionMinor()),
		"dates": [][]int{dateInts(h.FirstVersionDate()), dateInts(h.MajorVersionDate()), dateInts(h.MinorVersionDate())},
		"name":  str(h.Name()), "family": str(h.Family()), "author": str(h.Author()), "about": str(h.About()),
	}
	t := f.Metrics()
	metrics := m{
		"ng": int(t.NumGlyphs()), "vert": t.HasVertLayout(),
		"rest": []int{int(t.MonoWidth()), int(t.Ascent()), int(t.ExtraAscent()), int(t.Descent()), int(t.ExtraDescent()),
			int(t.UppercaseAscent()), int(t.MidlineAscent()), int(t.HorzInterspacing()), int(t.VertInterspacing()),
			int(t.LineGap()), int(t.VertLineWidth()), int(t.VertLineGap())},
		"mono": t.Monospaced(), "line": t.LineHeight(), "vline": t.VertLineFullWidth(), "size": f.RawSize(),
	}
	c := f.Color()
	dyes, pals := []m{}, []m{}
	c.EachDye(func(k ggfnt.DyeKey, name string) {
		cols := [][]int{}
		c.EachDyeAlpha(k, func(a uint8) { cols = append(cols, []int{int(a)}) })
		dyes = append(dyes, m{"key": int(k), "n": int(c.NumDyeAlphas(k)), "name": str(name), "colors": cols})
	})
	c.EachPalette(func(k ggfnt.PaletteKey, name string) {
		cols := [][]int{}
		c.EachPaletteColor(k, func(v color.RGBA) { cols = append(cols, []int{int(v.R), int(v.G), int(v.B), int(v.A)}) })
		pals = append(pals, m{"key": int(k), "n": int(c.NumPaletteColors(k)), "name": str(name), "colors": cols})
	})
	gopal := [][]int{}
	for _, e := range c.GoColorPalette() {
		v := e.(color.RGBA)
		gopal = append(gopal, []int{int(v.R), int(v.G), int(v.B), int(v.A)})
	}
	colors := m{"dyes": dyes, "palettes": pals, "gopal": gopal,
		"counts": []int{int(c.NumDyes()), int(c.NumDyeIndices()), int(c.NumPalettes()), int(c.NumPaletteIndices()), int(c.Count())}}
	g := f.Glyphs()
	names := []int{}
	for _, n := range op.Arr("names") {
		names = append(names, int(g.FindIndexByName(string(bytesOf(n)))))
	}
	places, advances, masks := [][]int{}, []int{}, []m{}
	for i := 0; i < int(g.Count()); i++ {
		p := g.Placement(ggfnt.GlyphIndex(i))
		places = append(places, []int{int(p.Advance), int(p.TopAdvance), int(p.BottomAdvance), int(p.HorzCenter)})
		advances = append(advances, int(g.Advance(ggfnt.GlyphIndex(i))))
		if !op.Bool("nomasks") {
			masks = append(masks, maskRes(g.RasterizeMask(ggfnt.GlyphIndex(i))))
		}
	}
	glyphs := m{"count": int(g.Count()), "named": int(g.NamedCount()), "names": names, "placements": places, "advances": advances, "masks": masks}
	s := f.Settings()
	words, predef := [][]int{}, [][]int{}
	for i := 0; i < int(s.NumWords()); i++ {
		words = append(words, str(s.GetWord(uint8(i))))
	}
	for i := 0; i < 256; i += 51 {
		predef = append(predef, str(ggfnt.GetPredefinedWord(uint8(i))), str(s.GetWord(uint8(i))))
	}
	settings := []m{}
	s.Each(func(k ggfnt.SettingKey, name string) {
		opts := [][]int{}
		for i := 0; i < int(s.GetNumOptions(k)); i++ {
			opts = append(opts, str(s.GetOptionName(k, uint8(i))))
		}
		settings = append(settings, m{"key": int(k), "name": str(name), "opts": opts})
	})
	setts := m{"count": int(s.Count()), "numwords": int(s.NumWords()), "words": words, "predef": predef, "list": settings,
		"beyond": int(s.GetNumOptions(ggfnt.SettingKey(s.Count())))}
	mp := f.Mapping()
	lookups := []m{}
	for _, l := range op.Arr("lookups") {
		l := drv.Op(l.(map[string]any))
		grp, ok := mp.Utf8(rune(l.Int("cp")), bytesOf(l["vals"]))
		lookups = append(lookups, groupRes(grp, ok))
	}
	mapping := m{"switches": int(mp.NumSwitchTypes()), "entries": int(mp.NumEntries()), "lookups": lookups}
	rw := f.Rewrites()
	rewrites := m{"nconds": int(rw.NumConditions()), "rsets": runeSets(rw), "gsets": glyphSets(rw), "urules": utf8Rules(rw), "grules": glyphRules(rw)}
	k := f.Kerning()
	hk, vk := []int{}, []int{}
	for _, p := range op.Arr("kerns") {
		v := drv.ToInts(p)
		hk = append(hk, int(k.Get(ggfnt.GlyphIndex(v[0]), ggfnt.GlyphIndex(v[1]))))
		vk = append(vk, int(k.GetVert(ggfnt.GlyphIndex(v[0]), ggfnt.GlyphIndex(v[1]))))
	}
	kern := m{"n": int(k.NumPairs()), "nv": int(k.NumVertPairs()), "h": hk, "v": vk}
	return m{"header": header, "metrics": metrics, "colors": colors, "glyphs": glyphs, "settings": setts,
		"mapping": mapping, "rewrites": rewrites, "kern": kern, "valid": f.Validate(ggfnt.FmtDefault) == nil}
}

func runeSets(rw *ggfnt.FontRewrites) []m {
	out := []m{}
	for i := 0; i < int(rw.NumUTF8Sets()); i++ {
		set := rw.GetUtf8Set(uint8(i))
		out = append(out, utf8SetRes(set, -1))
	}
	return out
}

var errStop = errors.New("verif: stop")

// utf8SetRes iterates a set, the callbacks failing at the stop-th call (-1 for never)
func utf8SetRes(set ggfnt.Utf8RewriteSet, stop int) m {
	ranges, list := [][]int{}, []int{}
	calls := 0
	tick := func() error {
		calls++
		if calls == stop {
			return errStop
		}
		return nil
	}
	err := set.EachRange(func(a, b rune) error { ranges = append(ranges, []int{int(a), int(b)}); return tick() })
	calls = 0
	err2 := set.EachListRune(func(r rune) error { list = append(list, int(r)); return tick() })
	return m{"data": ints(set.Data), "ranges": ranges, "list": list, "errs": []bool{err == errStop, err2 == errStop}, "ok": []bool{err == nil, err2 == nil}}
}

func glyphSetRes(set ggfnt.GlyphRewriteSet, stop int) m {
	ranges, list := [][]int{}, []int{}
	calls := 0
	tick := func() error {
		calls++
		if calls == stop {
			return errStop
		}
		return nil
	}
	err := set.EachRange(func(r ggfnt.GlyphRange) error {
		ranges = append(ranges, []int{int(r.First), int(r.Last)})
		return tick()
	})
	calls = 0
	err2 := set.EachListGlyph(func(r ggfnt.GlyphIndex) error { list = append(list, int(r)); return tick() })
	return m{"data": ints(set.Data), "ranges": ranges, "list": list, "errs": []bool{err == errStop, err2 == errStop}, "ok": []bool{err == nil, err2 == nil}}
}

func glyphSets(rw *ggfnt.FontRewrites) []m {
	out := []m{}
	for i := 0; i < int(rw.NumGlyphSets()); i++ {
		out = append(out, glyphSetRes(rw.GetGlyphSet(uint8(i)), -1))
	}
	return out
}

func utf8Rules(rw *ggfnt.FontRewrites) []m {
	out := []m{}
	for i := 0; i < int(rw.NumUTF8Rules()); i++ {
		out = append(out, utf8RuleRes(rw.GetUtf8Rule(uint16(i))))
	}
	return out
}

func utf8RuleRes(r ggfnt.Utf8RewriteRule) m {
	o := []int{}
	r.EachOut(func(v rune) { o = append(o, int(v)) })
	return m{"data": ints(r.Data), "lens": []int{int(r.Condition()), int(r.HeadLen()), int(r.BodyLen()), int(r.TailLen()), inLen(r.HeadLen(), r.BodyLen(), r.TailLen(), r.InLen()), int(r.OutLen())}, "out": o}
}

func glyphRules(rw *ggfnt.FontRewrites) []m {
	out := []m{}
	for i := 0; i < int(rw.NumGlyphRules()); i++ {
		out = append(out, glyphRuleRes(rw.GetGlyphRule(uint16(i))))
	}
	return out
}

func glyphRuleRes(r ggfnt.GlyphRewriteRule) m {
	o := []int{}
	r.EachOut(func(v ggfnt.GlyphIndex) { o = append(o, int(v)) })
	return m{"data": ints(r.Data), "lens": []int{int(r.Condition()), int(r.HeadLen()), int(r.BodyLen()), int(r.TailLen()), inLen(r.HeadLen(), r.BodyLen(), r.TailLen(), r.InLen()), int(r.OutLen())}, "out": o}
}

// gz compresses the parts as the members of one gzip stream
func gz(raw []byte, cuts []int, level int, comment bool) []byte {
	var buf bytes.Buffer
	from := 0
	for _, to := range append(append([]int{}, cuts...), len(raw)) {
		to = max(from, min(to, len(raw)))
		w, err := gzip.NewWriterLevel(&buf, level)
		if err != nil {
			panic(drv.HarnessError(err.Error()))
		}
		if comment {
			w.Name, w.Comment, w.ModTime = "a font", "verif", time.Unix(1700000000, 0)
		}
		w.Write(raw[from:to])
		w.Close()
		from = to
	}
	return buf.Bytes()
}

type memFS struct {
	data   []byte
	mk     func() io.Reader
	closed int
	fail   bool // Stat fails
	size   int64
}
type memFile struct {
	fs *memFS
	r  io.Reader
}

func (f *memFS) Open(name string) (fs.File, error) {
	if name != "font" {
		return nil, fs.ErrNotExist
	}
	return &memFile{fs: f, r: f.mk()}, nil
}
func (f *memFile) Stat() (fs.FileInfo, error) {
	if f.fs.fail {
		return nil, errFail
	}
	return f, nil
}
func (f *memFile) Read(p []byte) (int, error) { return f.r.Read(p) }
func (f *memFile) Close() error               { f.fs.closed++; return nil }
func (f *memFile) Name() string               { return "font" }
func (f *memFile) Size() int64                { return f.fs.size }
func (f *memFile) Mode() fs.FileMode          { return 0o444 }
func (f *memFile) ModTime() time.Time         { return time.Time{} }
func (f *memFile) IsDir() bool                { return false }
func (f *memFile) Sys() any                   { return nil }

// The raw data under edition: the base and its zero padding.
type rawBase struct {
	b     []byte
	at, n int
}

func (r *rawBase) bytes() []byte {
	out := make([]byte, 0, len(r.b)+r.n)
	out = append(out, r.b[:r.at]...)
	out = append(out, make([]byte, r.n)...)
	return append(out, r.b[r.at:]...)
}

// streamOf builds the bytes given to the parser: edited raw data, packed, damaged.
func (w *world) streamOf(op drv.Op) (raw, stream []byte) {
	base := *w.base
	b := bytes.Clone(base.b)
	for _, e := range op.Arr("edits") {
		e := drv.Op(e.(map[string]any))
		at, del := e.Int("at"), e.Int("del")
		ins := bytesOf(e["ins"])
		b = append(append(bytes.Clone(b[:at]), ins...), b[at+del:]...)
	}
	base.b = b
	base.at = min(base.at, len(b))
	raw = base.bytes()
	sig := "tggfnt"
	stream = append([]byte(sig), gz(raw, op.Ints("members"), op.IntOr("level", -1), op.Bool("comment"))...)
	if op.Has("flip") {
		i := op.Int("flip") % len(stream)
		if op.Bool("fromend") {
			i = len(stream) - 1 - i
		}
		stream[i] ^= byte(op.Int("mask"))
	}
	if op.Has("scut") { // remaining length, in thousandths or from the end
		n := op.Int("scut") * len(stream) / 1000
		if op.Bool("fromend") {
			n = len(stream) - 1 - op.Int("scut")
		}
		stream = stream[:max(0, min(n, len(stream)-1))]
	}
	if op.Has("tail") {
		stream = append(stream, bytesOf(op["tail"])...)
	}
	return raw, stream
}

func opParse(w *world, op drv.Op) any {
	raw, stream := w.streamOf(op)
	mk := func() io.Reader {
		fail := -1
		if op.Has("fail") {
			fail = op.Int("fail") * (len(stream) + 1) / 1000
			if op.Bool("fromend") {
				fail = len(stream) - op.Int("fail")
			}
			fail = max(0, min(fail, len(stream)))
		}
		return &chunkReader{data: stream, chunks: op.Ints("chunks"), eof: op.Bool("eof"), failAt: fail, empty: op.IntOr("empty", 0)}
	}
	var font *ggfnt.Font
	var err error
	res := m{"closed": 1, "missing": true}
	switch op.Str("how") {
	case "reader":
		font, err = ggfnt.Parse(mk())
	case "path":
		file, werr := os.CreateTemp(os.Getenv("VERIF_TMP"), "font-*")
		if werr == nil {
			_, werr = file.Write(stream)
			file.Close()
		}
		if werr != nil {
			panic(drv.HarnessError(werr.Error()))
		}
		path := file.Name()
		font, err = ggfnt.ParseFromPath(path)
		os.Remove(path)
		_, err2 := ggfnt.ParseFromPath(path)
		res["missing"] = err2 != nil
	case "fs":
		f := &memFS{data: stream, mk: mk, size: int64(len(stream)) + int64(op.IntOr("grow", 0))<<20, fail: op.Bool("nostat")}
		font, err = ggfnt.ParseFromFS(f, "font")
		res["closed"] = f.closed
		_, err2 := ggfnt.ParseFromFS(f, "nofont")
		res["missing"] = err2 != nil
	}
	res["ok"] = err == nil
	res["same"] = err == nil && font != nil && bytes.Equal(font.Data, raw) && font.RawSize() == len(raw)
	res["len"] = len(stream)
	if err == nil {
		w.fonts[op.IntOr("f", 0)] = font
		res["kept"] = w.parsed.keep(font)
	} else {
		res["kept"] = w.parsed.keep(nil)
	}
	return res
}

type failWriter struct{ n int }

func (f *failWriter) Write(p []byte) (int, error) {
	if f.n >= len(p) {
		f.n -= len(p)
		return len(p), nil
	}
	k := f.n
	f.n = 0
	return k, errFail
}

func sameJSON(a, b any) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return bytes.Equal(x, y)
}

// exportCheck exports a font, reads it back and exports it again
func exportCheck(f *ggfnt.Font, op drv.Op) m {
	before := bytes.Clone(f.Data)
	var out bytes.Buffer
	err := f.Export(&out)
	res := m{"ok": err == nil, "sig": false, "data": false, "kept": bytes.Equal(before, f.Data), "again": false, "parse": false,
		"same": false, "dump": false, "chunks": true, "werr": true}
	if err != nil {
		return res
	}
	stream := out.Bytes()
	res["sig"] = bytes.HasPrefix(stream, []byte("tggfnt"))
	if len(stream) > 6 {
		if zr, err := gzip.NewReader(bytes.NewReader(stream[6:])); err == nil {
			data, err := io.ReadAll(zr)
			res["data"] = err == nil && bytes.Equal(data, f.Data)
		}
	}
	want := dumpFont(f, op)
	f2, err := ggfnt.Parse(bytes.NewReader(stream))
	res["parse"] = err == nil
	if err == nil {
		res["same"] = bytes.Equal(f2.Data, f.Data)
		res["dump"] = sameJSON(dumpFont(f2, op), want)
		var out2 bytes.Buffer
		err = f2.Export(&out2)
		res["again"] = err == nil && bytes.Equal(out2.Bytes(), stream)
	}
	// however the reader splits the stream
	for _, c := range op.Arr("chunkings") {
		f3, err := ggfnt.Parse(&chunkReader{data: stream, chunks: drv.ToInts(c), eof: len(drv.ToInts(c))%2 == 0, failAt: -1, empty: 5})
		if err != nil || !bytes.Equal(f3.Data, f.Data) || !sameJSON(dumpFont(f3, op), want) {
			res["chunks"] = false
		}
	}
	// failing writers
	for _, n := range []int{0, 3, 6, len(stream) / 2, len(stream) - 1} {
		if f.Export(&failWriter{n: n}) == nil {
			res["werr"] = false
		}
	}
	return res
}

func initFont() {
	table["base"] = func(w *world, op drv.Op) any {
		w.base = &rawBase{b: bytesOf(op["b"]), at: op.Int("at"), n: op.Int("n")}
		return m{}
	}
	table["parse"] = opParse
	table["dump"] = func(w *world, op drv.Op) any { return dumpFont(w.font(op), op) }
	table["export"] = func(w *world, op drv.Op) any { return exportCheck(w.font(op), op) }
	table["names"] = func(w *world, op drv.Op) any {
		out := []int{}
		for _, n := range op.Arr("names") {
			out = append(out, int(w.font(op).Glyphs().FindIndexByName(string(bytesOf(n)))))
		}
		return m{"v": out, "n": int(w.font(op).Glyphs().NamedCount())}
	}
	table["kerns"] = func(w *world, op drv.Op) any {
		hk, vk := []int{}, []int{}
		k := w.font(op).Kerning()
		for _, p := range op.Arr("pairs") {
			v := drv.ToInts(p)
			hk = append(hk, int(k.Get(ggfnt.GlyphIndex(v[0]), ggfnt.GlyphIndex(v[1]))))
			vk = append(vk, int(k.GetVert(ggfnt.GlyphIndex(v[0]), ggfnt.GlyphIndex(v[1]))))
		}
		return m{"h": hk, "v": vk, "n": int(k.NumPairs()), "nv": int(k.NumVertPairs())}
	}
	// a set iterated with callbacks failing at the stop-th call
	table["set"] = func(w *world, op drv.Op) any {
		if op.Str("kind") == "rune" {
			return utf8SetRes(w.font(op).Rewrites().GetUtf8Set(uint8(op.Int("i"))), op.Int("stop"))
		}
		return glyphSetRes(w.font(op).Rewrites().GetGlyphSet(uint8(op.Int("i"))), op.Int("stop"))
	}
	// a glyph range as a value
	table["range"] = func(w *world, op drv.Op) any {
		first, last := ggfnt.GlyphIndex(op.Int("a")), ggfnt.GlyphIndex(op.Int("b"))
		r := ggfnt.GlyphRange{First: first, Last: last}
		res := m{"made": made(first, last), "ok": r.Validate(uint16(op.Int("max"))) == nil}
		has := []bool{}
		for _, x := range op.Ints("xs") {
			has = append(has, r.Contains(ggfnt.GlyphIndex(x)))
		}
		res["has"] = has
		return res
	}
	// a session of questions, within what the font defines and beyond it; -1 when refused
	table["probe"] = func(w *world, op drv.Op) any {
		f := w.font(op)
		cache := ggfnt.NewSettingsCache(f)
		zeros := make([]uint8, int(f.Settings().Count()))
		out := []int{}
		kept := true
		for _, a := range op.Arr("asks") {
			ask := a.([]any)
			out = append(out, probe(f, cache, zeros, ask[0].(string), int(ask[1].(float64)), int(ask[2].(float64))))
			for _, z := range zeros {
				kept = kept && z == 0
			}
		}
		return m{"v": out, "kept": kept}
	}
	// equality of all pairs of rules, as a matrix
	table["equals"] = func(w *world, op drv.Op) any {
		rw := w.font(op).Rewrites()
		ue, ge := [][]bool{}, [][]bool{}
		for i := 0; i < int(rw.NumUTF8Rules()); i++ {
			row := []bool{}
			a := rw.GetUtf8Rule(uint16(i))
			for j := 0; j < int(rw.NumUTF8Rules()); j++ {
				row = append(row, a.Equals(rw.GetUtf8Rule(uint16(j))))
			}
			ue = append(ue, row)
		}
		for i := 0; i < int(rw.NumGlyphRules()); i++ {
			row := []bool{}
			a := rw.GetGlyphRule(uint16(i))
			for j := 0; j < int(rw.NumGlyphRules()); j++ {
				row = append(row, a.Equals(rw.GetGlyphRule(uint16(j))))
			}
			ge = append(ge, row)
		}
		return m{"u": ue, "g": ge}
	}
}

// the format allows 255 elements at most: what InLen says of longer rules is not judged
func inLen(head, body, tail, in uint8) int {
	sum := int(head) + int(body) + int(tail)
	if sum > 255 {
		return sum
	}
	return int(in)
}

func made(first, last ggfnt.GlyphIndex) (r []int) {
	defer func() {
		if recover() != nil {
			r = []int{}
		}
	}()
	rng := ggfnt.NewRange(first, last)
	return []int{int(rng.First), int(rng.Last)}
}

func probe(f *ggfnt.Font, cache *ggfnt.SettingsCache, zeros []uint8, kind string, i, j int) (r int) {
	defer func() {
		if recover() != nil {
			r = -1
		}
	}()
	c, g, st, rw := f.Color(), f.Glyphs(), f.Settings(), f.Rewrites()
	switch kind {
	case "dye":
		return int(c.NumDyeAlphas(ggfnt.DyeKey(i)))
	case "eachdye":
		c.EachDyeAlpha(ggfnt.DyeKey(i), func(uint8) { r++ })
		return r
	case "palette":
		return int(c.NumPaletteColors(ggfnt.PaletteKey(i)))
	case "eachpalette":
		c.EachPaletteColor(ggfnt.PaletteKey(i), func(color.RGBA) { r++ })
		return r
	case "advance":
		return int(g.Advance(ggfnt.GlyphIndex(i)))
	case "place":
		return int(g.Placement(ggfnt.GlyphIndex(i)).Advance)
	case "mask":
		g.RasterizeMask(ggfnt.GlyphIndex(i))
		return 0
	case "nopts":
		return int(st.GetNumOptions(ggfnt.SettingKey(i)))
	case "opt":
		st.GetOptionName(ggfnt.SettingKey(i), uint8(j))
		return 0
	case "switch":
		return int(f.Mapping().EvaluateSwitch(uint8(i), zeros))
	case "cond":
		rw.EvaluateCondition(uint8(i), zeros)
		return 0
	case "urule":
		return len(rw.GetUtf8Rule(uint16(i)).Data)
	case "grule":
		return len(rw.GetGlyphRule(uint16(i)).Data)
	case "rset":
		return len(rw.GetUtf8Set(uint8(i)).Data)
	case "gset":
		return len(rw.GetGlyphSet(uint8(i)).Data)
	case "choice":
		grp, ok := f.Mapping().Utf8(rune(i), zeros)
		if !ok {
			return -1
		}
		return int(grp.Select(uint8(j)))
	case "set":
		cache.Set(ggfnt.SettingKey(i), uint8(j))
		return 0
	case "get":
		return int(cache.Get(ggfnt.SettingKey(i)))
	}
	panic("unknown kind " + kind)
}
