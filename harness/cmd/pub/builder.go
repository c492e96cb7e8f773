package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"image"
	"image/color"
	"math/bits"
	"time"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/verifdrv/drv"
)

// bworld is a font builder together with the identifiers of what was created in it. In
// operations glyphs and sets are numbered from 1 in order of creation; 0 is an identifier
// that was never handed out.
type bworld struct {
	b      *builder.Font
	glyphs []uint64
	gsets  []uint64
	rsets  []uint64
	data   []byte // of the font built last
	fonts  kept
	noise  []noiseGlyph
}

// noiseGlyph: a glyph whose mask has 255 by 255 pixels of any values
type noiseGlyph struct{ index, up int }

func (n noiseGlyph) mask() *image.Alpha {
	img := image.NewAlpha(image.Rect(0, -n.up, 255, 255-n.up))
	seed := uint64(n.index)*0x9E3779B97F4A7C15 + 1
	for k := range img.Pix {
		seed = seed*6364136223846793005 + 1442695040888963407
		img.Pix[k] = uint8(1 + (seed>>33)%255)
	}
	return img
}

// kept fonts never change
type kept struct {
	fonts []*ggfnt.Font
	data  [][]byte
}

// keep tells whether the fonts kept so far are what they were, and keeps one more
func (k *kept) keep(f *ggfnt.Font) bool {
	same := true
	for i, old := range k.fonts {
		same = same && bytes.Equal(old.Data, k.data[i])
	}
	if f != nil && len(f.Data) < 1<<20 {
		if len(k.fonts) == 8 {
			k.fonts, k.data = k.fonts[1:], k.data[1:]
		}
		k.fonts, k.data = append(k.fonts, f), append(k.data, bytes.Clone(f.Data))
	}
	return same
}

const unknownUID = 56789

func pick(list []uint64, h int) uint64 {
	if h < 1 || h > len(list) {
		return unknownUID
	}
	return list[h-1]
}
func find(list []uint64, uid uint64) int {
	for i, e := range list {
		if e == uid {
			return i + 1
		}
	}
	return 0
}
func (w *bworld) uids(gs []int) []uint64 {
	out := make([]uint64, len(gs))
	for i, g := range gs {
		out[i] = pick(w.glyphs, g)
	}
	return out
}

func today() []int {
	n := time.Now()
	return []int{n.Year(), int(n.Month()), n.Day()}
}

// obs asks the builder for everything its getters tell
func (w *bworld) obs() m {
	b := w.b
	id := []int{}
	for i := 0; i < 8; i++ {
		id = append(id, int(b.GetFontID()>>(8*i)&255))
	}
	return m{
		"id": id, "idstr": b.GetFontIDStr(), "ver": []int{int(b.GetVersionMajor()), int(b.GetVersionMinor())}, "verstr": b.GetVersionStr(),
		"dates": [][]int{dateInts(b.GetFirstVerDate()), dateInts(b.GetMajorVerDate()), dateInts(b.GetMinorVerDate())},
		"name":  str(b.GetName()), "family": str(b.GetFamily()), "author": str(b.GetAuthor()), "about": str(b.GetAbout()),
		"m": []int{int(b.GetMonoWidth()), int(b.GetAscent()), int(b.GetExtraAscent()), int(b.GetDescent()), int(b.GetExtraDescent()),
			int(b.GetUppercaseAscent()), int(b.GetMidlineAscent()), int(b.GetHorzInterspacing()), int(b.GetVertInterspacing()),
			int(b.GetLineGap()), int(b.GetVertLineWidth()), int(b.GetVertLineGap())},
		"ng": b.GetNumGlyphs(), "fine": b.GetMetricsStatus() == nil,
	}
}

func outcome(err error) string {
	if err != nil {
		return "err"
	}
	return "ok"
}
func yesNo(v bool) string {
	if v {
		return "true"
	}
	return "false"
}
func scribble(s []uint64) {
	for i := range s {
		s[i] = 0xABCDEF
	}
}

func popcount(v uint64) int { return bits.OnesCount64(v) }

// step runs one builder operation, reporting its outcome and what it tells beyond that
func (w *bworld) step(op drv.Op) (out string, more m) {
	more = m{}
	b := w.b
	switch op.Str("op") {
	case "b.str":
		s := string(bytesOf(op["s"]))
		switch op.Str("f") {
		case "name":
			return outcome(b.SetName(s)), more
		case "family":
			return outcome(b.SetFamily(s)), more
		case "author":
			return outcome(b.SetAuthor(s)), more
		}
		return outcome(b.SetAbout(s)), more
	case "b.date":
		v := op.Ints("date")
		date := ggfnt.Date{Year: uint16(v[0]), Month: uint8(v[1]), Day: uint8(v[2])}
		switch op.Int("i") {
		case 1:
			return outcome(b.SetFirstVerDate(date)), more
		case 2:
			return outcome(b.SetMajorVerDate(date)), more
		}
		return outcome(b.SetMinorVerDate(date)), more
	case "b.raise":
		if op.Str("k") == "major" {
			b.RaiseMajorVersion()
		} else {
			b.RaiseMinorVersion()
		}
	case "b.version":
		b.SetVersion(uint16(op.Int("major")), uint16(op.Int("minor")))
	case "b.vert":
		b.SetVertLayoutUsed(op.Bool("v"))
	case "b.u8":
		v := uint8(op.Int("v"))
		switch op.Str("f") {
		case "mono":
			b.SetMonoWidth(v)
		case "asc":
			b.SetAscent(v)
		case "xasc":
			b.SetExtraAscent(v)
		case "desc":
			b.SetDescent(v)
		case "xdesc":
			b.SetExtraDescent(v)
		case "upper":
			b.SetUppercaseAscent(v)
		case "mid":
			b.SetMidlineAscent(v)
		case "hinter":
			b.SetHorzInterspacing(v)
		case "vinter":
			b.SetVertInterspacing(v)
		case "gap":
			b.SetLineGap(v)
		case "vlw":
			return outcome(b.SetVertLineWidth(v)), more
		case "vlg":
			return outcome(b.SetVertLineGap(v)), more
		default:
			panic(drv.HarnessError("unknown metric"))
		}
	case "b.glyph":
		img, big := makeMask(op)
		before := bytes.Clone(big.Pix)
		uid, err := b.AddGlyph(img)
		if !bytes.Equal(before, big.Pix) {
			return "touched", more
		}
		for i := range big.Pix { // the builder must not depend on the image anymore
			big.Pix[i] ^= 0x5A
		}
		if err == nil {
			if find(w.glyphs, uid) != 0 || uid == unknownUID {
				return "reused", more
			}
			w.glyphs = append(w.glyphs, uid)
		}
		return outcome(err), more
	case "b.place":
		v := op.Ints("v")
		return outcome(b.SetGlyphPlacement(pick(w.glyphs, op.Int("g")), ggfnt.GlyphPlacement{
			Advance: uint8(v[0]), TopAdvance: uint8(v[1]), BottomAdvance: uint8(v[2]), HorzCenter: uint8(v[3])})), more
	case "b.gname":
		return outcome(b.SetGlyphName(pick(w.glyphs, op.Int("g")), string(bytesOf(op["s"])))), more
	case "b.kern":
		b.SetKerningPair(pick(w.glyphs, op.Int("a")), pick(w.glyphs, op.Int("c")), int8(op.Int("v")))
	case "b.dye":
		cols := []uint8{}
		for _, c := range op.Arr("cols") {
			cols = append(cols, uint8(drv.ToInts(c)[0]))
		}
		err := b.AddDye(string(bytesOf(op["s"])), cols...)
		for i := range cols {
			cols[i] ^= 0x5A
		}
		return outcome(err), more
	case "b.pal":
		cols := []color.RGBA{}
		for _, c := range op.Arr("cols") {
			v := drv.ToInts(c)
			cols = append(cols, color.RGBA{R: uint8(v[0]), G: uint8(v[1]), B: uint8(v[2]), A: uint8(v[3])})
		}
		err := b.AddPalette(string(bytesOf(op["s"])), cols...)
		for i := range cols {
			cols[i].G ^= 0x5A
		}
		return outcome(err), more
	case "b.setting":
		opts := []string{}
		for _, o := range op.Arr("opts") {
			opts = append(opts, string(bytesOf(o)))
		}
		key, err := b.AddSetting(string(bytesOf(op["s"])), opts...)
		for i := range opts {
			opts[i] = "scribbled"
		}
		if err == nil {
			more["key"] = int(key)
		}
		return outcome(err), more
	case "b.switch":
		keys := []ggfnt.SettingKey{}
		for _, k := range op.Ints("keys") {
			keys = append(keys, ggfnt.SettingKey(k))
		}
		key, err := b.AddSwitch(keys...)
		for i := range keys {
			keys[i] = 200
		}
		if err == nil {
			more["key"] = int(key)
		}
		return outcome(err), more
	case "b.map":
		return outcome(b.Map(rune(op.Int("cp")), pick(w.glyphs, op.Int("g")))), more
	case "b.mapg":
		gs := w.uids(op.Ints("gs"))
		err := b.MapGroup(rune(op.Int("cp")), ggfnt.AnimationFlags(op.Int("flags")), gs...)
		scribble(gs)
		return outcome(err), more
	case "b.maps":
		gs := w.uids(op.Ints("gs"))
		err := b.MapWithSwitchSingles(rune(op.Int("cp")), uint8(op.Int("sw")), gs...)
		scribble(gs)
		return outcome(err), more
	case "b.mapsw":
		groups := [][]uint64{}
		for _, g := range op.Arr("groups") {
			groups = append(groups, w.uids(drv.ToInts(g)))
		}
		flags := []ggfnt.AnimationFlags{}
		for _, f := range op.Ints("flags") {
			flags = append(flags, ggfnt.AnimationFlags(f))
		}
		err := b.MapWithSwitch(rune(op.Int("cp")), uint8(op.Int("sw")), groups, flags)
		for _, g := range groups {
			scribble(g)
		}
		for i := range flags {
			flags[i] ^= 0xFF
		}
		for i := range groups {
			groups[i] = nil
		}
		return outcome(err), more
	case "b.gset":
		uid, err := b.CreateGlyphSet()
		if err == nil {
			w.gsets = append(w.gsets, uid)
		}
		return outcome(err), more
	case "b.rset":
		uid, err := b.CreateRuneSet()
		if err == nil {
			w.rsets = append(w.rsets, uid)
		}
		return outcome(err), more
	case "b.gsetrm":
		return yesNo(b.RemoveGlyphSet(pick(w.gsets, op.Int("h")))), more
	case "b.rsetrm":
		return yesNo(b.RemoveRuneSet(pick(w.rsets, op.Int("h")))), more
	case "b.grange":
		return outcome(b.AddGlyphSetRange(pick(w.gsets, op.Int("h")), pick(w.glyphs, op.Int("a")), pick(w.glyphs, op.Int("c")))), more
	case "b.ungrange":
		return yesNo(b.RemoveGlyphSetRange(pick(w.gsets, op.Int("h")), pick(w.glyphs, op.Int("a")), pick(w.glyphs, op.Int("c")))), more
	case "b.glist":
		return outcome(b.AddGlyphSetListGlyph(pick(w.gsets, op.Int("h")), pick(w.glyphs, op.Int("v")))), more
	case "b.unglist":
		return yesNo(b.RemoveGlyphSetListGlyph(pick(w.gsets, op.Int("h")), pick(w.glyphs, op.Int("v")))), more
	case "b.rrange":
		return outcome(b.AddRuneSetRange(pick(w.rsets, op.Int("h")), rune(op.Int("a")), rune(op.Int("c")))), more
	case "b.unrrange":
		return yesNo(b.RemoveRuneSetRange(pick(w.rsets, op.Int("h")), rune(op.Int("a")), rune(op.Int("c")))), more
	case "b.rlist":
		return outcome(b.AddRuneSetListRune(pick(w.rsets, op.Int("h")), rune(op.Int("v")))), more
	case "b.unrlist":
		return yesNo(b.RemoveRuneSetListRune(pick(w.rsets, op.Int("h")), rune(op.Int("v")))), more
	case "b.urule":
		seq := []rune{}
		for _, r := range op.Ints("seq") {
			seq = append(seq, rune(r))
		}
		err := b.AddSimpleUtf8RewriteRule(rune(op.Int("v")), seq...)
		for i := range seq {
			seq[i] = 'x'
		}
		return outcome(err), more
	case "b.grule":
		els := []uint64{}
		for _, e := range op.Ints("els") {
			if e < 0 {
				els = append(els, pick(w.gsets, -e))
			} else {
				els = append(els, pick(w.glyphs, e))
			}
		}
		outs := w.uids(op.Ints("out"))
		l := op.Ints("lens")
		err := b.AddGlyphRewriteRule(uint8(l[0]), uint8(l[1]), uint8(l[2]), els, outs...)
		scribble(els)
		scribble(outs)
		return outcome(err), more
	case "b.edition":
		return outcome(b.ParseEditionData(w.edition(op))), more
	case "b.clear":
		b.ClearEditionData()
	case "b.fill":
		n := 0
		for i := 0; i < op.Int("n"); i++ {
			var err error
			switch op.Str("kind") {
			case "urule":
				err = b.AddSimpleUtf8RewriteRule(66, 65)
			case "map":
				err = b.Map(rune(op.Int("base")+i+1), pick(w.glyphs, 1))
			case "glyph":
				img, _ := makeMask(drv.Op{"outer": []any{0., 0., 1., 1.}, "rect": []any{0., 0., 1., 1.}, "px": []any{}})
				var uid uint64
				uid, err = b.AddGlyph(img)
				if err == nil {
					w.glyphs = append(w.glyphs, uid)
				}
			case "noise":
				ng := noiseGlyph{len(w.glyphs), op.Int("up")}
				img := ng.mask()
				var uid uint64
				uid, err = b.AddGlyph(img)
				if err == nil {
					w.glyphs = append(w.glyphs, uid)
					w.noise = append(w.noise, ng)
				}
			case "wide":
				gs := make([]uint64, 128)
				for k := range gs {
					gs[k] = pick(w.glyphs, 1+((k+1)*(k+1))%3)
				}
				groups, flags := make([][]uint64, op.Int("cases")), make([]ggfnt.AnimationFlags, op.Int("cases"))
				for k := range groups {
					groups[k], flags[k] = gs, 1
				}
				err = b.MapWithSwitch(rune(op.Int("base")+i+1), uint8(op.Int("sw")), groups, flags)
			case "long":
				seq := make([]rune, 255)
				for k := range seq {
					seq[k] = rune(k + 1)
				}
				err = b.AddSimpleUtf8RewriteRule(66, seq...)
			case "set":
				k, e1, e2 := op.Int("base")+i+1, error(nil), error(nil)
				if op.Str("set") == "gsets" {
					uid := pick(w.glyphs, k)
					e1, e2 = b.AddGlyphSetListGlyph(pick(w.gsets, op.Int("h")), uid), b.AddGlyphSetRange(pick(w.gsets, op.Int("h")), uid, uid)
				} else {
					e1, e2 = b.AddRuneSetListRune(pick(w.rsets, op.Int("h")), rune(k)), b.AddRuneSetRange(pick(w.rsets, op.Int("h")), rune(k), rune(k))
				}
				if e1 == nil {
					n++
				}
				err = e2
			}
			if err == nil {
				n++
			}
		}
		more["n"] = n
	case "b.colors":
		list := [][]m{}
		for _, n := range op.Arr("ask") {
			name := string(bytesOf(n))
			dye, pal := [][]int{}, [][]int{}
			err1 := b.EachDyeAlpha(name, func(a, i uint8) { dye = append(dye, []int{int(a), int(i)}) })
			err2 := b.EachPaletteColor(name, func(c color.RGBA, i uint8) {
				pal = append(pal, []int{int(c.R), int(c.G), int(c.B), int(c.A), int(i)})
			})
			list = append(list, []m{{"ok": err1 == nil, "cols": dye}, {"ok": err2 == nil, "cols": pal}})
		}
		more["told"] = list
	case "b.sets":
		gs, rs := []m{}, []m{}
		for _, uid := range w.gsets {
			ranges, list := [][]int{}, []int{}
			b.EachGlyphSetRange(uid, func(x, y uint64) { ranges = append(ranges, []int{find(w.glyphs, x), find(w.glyphs, y)}) })
			b.EachGlyphSetListGlyph(uid, func(x uint64) { list = append(list, find(w.glyphs, x)) })
			gs = append(gs, m{"ranges": ranges, "list": list})
		}
		for _, uid := range w.rsets {
			ranges, list := [][]int{}, []int{}
			b.EachRuneSetRange(uid, func(x, y rune) { ranges = append(ranges, []int{int(x), int(y)}) })
			b.EachRuneSetListRune(uid, func(x rune) { list = append(list, int(x)) })
			rs = append(rs, m{"ranges": ranges, "list": list})
		}
		more["gsets"], more["rsets"] = gs, rs
	case "b.obs":
	case "b.build":
		return w.build(op, more)
	default:
		panic(drv.HarnessError("unknown op " + op.Str("op")))
	}
	return "ok", more
}

// build builds the font twice and looks at the result
func (w *bworld) build(op drv.Op, more m) (string, m) {
	before := w.obs()
	f, err := w.b.Build()
	var stream bytes.Buffer
	xerr := w.b.Export(&stream)
	if (err == nil) != (xerr == nil) {
		return "export", more
	}
	if err != nil {
		if f != nil {
			return "both", more
		}
		more["obsKept"] = sameJSON(before, w.obs())
		return "err", more
	}
	data := bytes.Clone(f.Data)
	f2, err := w.b.Build()
	more["again"] = err == nil && bytes.Equal(f2.Data, data)
	var direct bytes.Buffer
	more["export"] = f.Export(&direct) == nil && bytes.Equal(direct.Bytes(), stream.Bytes())
	more["werr"] = w.b.Export(&failWriter{n: stream.Len() / 2}) != nil
	if len(data) > 4<<20 {
		op = drv.Op{"names": op["names"], "kerns": op["kerns"], "lookups": op["lookups"], "lite": true}
	}
	if len(w.noise) > 0 { // too much to tell
		op = drv.Op{"names": op["names"], "kerns": op["kerns"], "lookups": op["lookups"], "nomasks": true}
		noise := []bool{}
		for _, n := range w.noise {
			got, want := f.Glyphs().RasterizeMask(ggfnt.GlyphIndex(n.index)), n.mask()
			same := got.Rect == want.Rect
			for y := want.Rect.Min.Y; same && y < want.Rect.Max.Y; y++ {
				for x := want.Rect.Min.X; x < want.Rect.Max.X; x++ {
					same = same && got.AlphaAt(x, y) == want.AlphaAt(x, y)
				}
			}
			noise = append(noise, same)
		}
		more["noise"] = noise
	}
	more["dump"] = dumpFont(f, op)
	if op.Bool("raw") {
		more["raw"] = ints(data)
	}
	if op.Bool("checks") {
		more["trip"] = exportCheck(f, op)
	} else {
		f3, err := ggfnt.Parse(bytes.NewReader(stream.Bytes()))
		more["trip"] = m{"parse": err == nil, "same": err == nil && bytes.Equal(f3.Data, data), "dump": err == nil && sameJSON(more["dump"], dumpFont(f3, op))}
	}
	more["size"] = len(data)
	more["eq"] = bytes.Equal(data, w.data)
	w.data = data
	// the font doesn't depend on the builder anymore, nor the builder on the font
	for i := range f2.Data {
		f2.Data[i] ^= 0xFF
	}
	apart := bytes.Equal(f.Data, data)
	f3, err := w.b.Build()
	more["apart"] = apart && err == nil && bytes.Equal(f3.Data, data) && bytes.Equal(f.Data, data)
	more["kept"] = w.fonts.keep(f)
	more["obsKept"] = sameJSON(before, w.obs())
	return "ok", more
}

// edition wraps edition data in its stream, damaged or not
func (w *bworld) edition(op drv.Op) *chunkReader {
	var buf bytes.Buffer
	buf.WriteString("wkgfnt")
	var raw []byte
	id := w.b.GetFontID()
	damage := ""
	if op.Has("damage") {
		damage = op.Str("damage")
	}
	if damage == "id" {
		id ^= 1 << (op.IntOr("at", 0) % 64)
	}
	for i := 0; i < 8; i++ {
		raw = append(raw, byte(id>>(8*i)))
	}
	raw = append(raw, bytesOf(op["data"])...)
	level := gzip.DefaultCompression
	if op.Has("level") {
		level = op.Int("level")
	}
	zw, _ := gzip.NewWriterLevel(&buf, level)
	zw.Write(raw)
	zw.Close()
	stream := buf.Bytes()
	at := op.IntOr("at", 0)
	r := &chunkReader{failAt: -1, eof: op.Bool("eof"), empty: op.IntOr("empty", 0)}
	if op.Has("chunks") {
		r.chunks = op.Ints("chunks")
	}
	switch damage {
	case "sig":
		stream[at%6] ^= 1 << (at % 8)
	case "cut": // counted from the front, never the whole stream
		stream = stream[:at%len(stream)]
	case "fail":
		r.failAt = at % len(stream)
	case "flip": // the gzip header or its checksum
		k := at % 11
		if k < 3 {
			stream[6+k] ^= 0x10
		} else {
			stream[len(stream)-8+(k-3)] ^= 1 << (at % 8)
		}
	case "tail":
		stream = append(stream, byte(at))
	}
	r.data = stream
	return r
}

func opBuilder(w *world, op drv.Op) (res any) {
	before := today()
	if op.Str("op") == "b.new" {
		w.b = &bworld{b: builder.New()}
		r := w.b.obs()
		return m{"out": "ok", "obs": r, "days": [][]int{before, today()}, "bits": popcount(w.b.b.GetFontID())}
	}
	var out string
	var more m
	func() {
		defer func() {
			if e := recover(); e != nil {
				if h, ok := e.(drv.HarnessError); ok {
					panic(h)
				}
				out, more = "panic", m{"why": fmt.Sprint(e)}
			}
		}()
		out, more = w.b.step(op)
	}()
	r := m{"out": out, "days": [][]int{before, today()}, "obs": w.b.obs()}
	for k, v := range more {
		r[k] = v
	}
	return r
}

func initBuilder() {
	for _, n := range []string{"new", "str", "date", "raise", "version", "u8", "vert", "glyph", "place", "gname", "kern", "dye", "pal",
		"setting", "switch", "map", "mapg", "maps", "mapsw", "gset", "rset", "gsetrm", "rsetrm", "grange", "ungrange", "glist", "unglist",
		"rrange", "unrrange", "rlist", "unrlist", "urule", "grule", "edition", "clear", "fill", "obs", "colors", "sets", "build"} {
		table["b."+n] = opBuilder
	}
	table["b.words"] = func(w *world, op drv.Op) any {
		list := [][]int{}
		for i := 0; i < 256; i++ {
			list = append(list, str(ggfnt.GetPredefinedWord(uint8(i))))
		}
		return m{"words": list}
	}
}
