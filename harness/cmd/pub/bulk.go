package main

import (
	"bytes"
	"compress/gzip"
	"image"
	"image/color"
	"math/rand"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/verifdrv/drv"
)

// A font with tables given by formulas over the numbers of their entries: see Bulk.tla.
type bulk struct {
	ng, am, pm, pk              int
	names, maps, ur, gr, kn, vk drv.Op
}

func readBulk(d drv.Op) bulk {
	return bulk{ng: d.Int("ng"), am: d.Int("am"), pm: d.Int("pm"), pk: d.Int("pk"), names: d.Sub("names"), maps: d.Sub("map"),
		ur: d.Sub("ur"), gr: d.Sub("gr"), kn: d.Sub("kern"), vk: d.Sub("vkern")}
}
func (b bulk) adv(g int) int { return g * b.am % 251 }
func (b bulk) px(g int) int  { return g * b.pm % b.pk }
func (b bulk) name(i int) string {
	w, v := b.names.Int("w"), i*b.names.Int("step")
	out := make([]byte, w)
	for k := w - 1; k >= 0; k-- {
		out[k] = 'a' + byte(v%26)
		v /= 26
	}
	return string(out)
}
func (b bulk) nameGlyph(i int) int { return (b.names.Int("add") + i*b.names.Int("mul")) % b.ng }
func (b bulk) code(i int) int      { return b.maps.Int("first") + i*b.maps.Int("step") }
func (b bulk) codeGlyph(i int) int { return (b.maps.Int("add") + i*b.maps.Int("mul")) % b.ng }
func kernPair(k drv.Op, i int) (int, int, int) {
	v := i*7%253 - 126
	if v == 0 {
		v = 127
	}
	return i / k.Int("m") * k.Int("ps"), i % k.Int("m") * k.Int("cs"), v
}
func (b bulk) glyphRule(i int) (in []int, out int) {
	for j := 0; j <= i%3; j++ {
		in = append(in, (i*3+j)%b.ng)
	}
	return in, (i*5 + 1) % b.ng
}
func runeRule(i int) (in []int, out int) {
	for j := 0; j <= i%3; j++ {
		in = append(in, 32+i+70000*j)
	}
	return in, 66000 + i
}

type bytesBuf struct{ b []byte }

func (w *bytesBuf) le(v, n int) {
	for i := 0; i < n; i++ {
		w.b = append(w.b, byte(v>>(8*i)))
	}
}

// table writes n chunks after their end offsets of the given width
func (w *bytesBuf) table(n, width int, chunk func(i int) []byte) {
	var data []byte
	for i := 0; i < n; i++ {
		data = append(data, chunk(i)...)
		w.le(len(data), width)
	}
	w.b = append(w.b, data...)
}

func (b bulk) raw() []byte {
	w := &bytesBuf{}
	w.le(2, 4)
	w.b = append(w.b, 0xB5, 0xE9, 0xAC, 0x68, 0x24, 0xF0, 0x57, 0x13, 0, 0, 1, 0)
	w.b = append(w.b, make([]byte, 12)...)
	w.b = append(w.b, 1, 'n', 0, 0, 0, 0)
	w.le(b.ng, 2)
	w.b = append(w.b, 0, 0, 9, 0, 5, 0, 9, 5, 1, 0, 1, 0, 0)
	w.b = append(w.b, 1, 1, 255, 4, 0, 'm', 'a', 'i', 'n', 0)
	n := b.names.Int("n")
	w.le(n, 2)
	for i := 0; i < n; i++ {
		w.le(b.nameGlyph(i), 2)
	}
	w.table(n, 3, func(i int) []byte { return []byte(b.name(i)) })
	w.table(b.ng, 3, func(i int) []byte {
		out := []byte{byte(b.adv(i))}
		for k := 0; k < b.px(i); k++ {
			if k == 0 {
				out = append(out, 0x80)
			} else {
				out = append(out, 0x82, 0)
			}
		}
		return out
	})
	switched := b.maps.Bool("sw")
	if switched { // one setting of two options, one switch
		w.b = append(w.b, 1, 1, 0, 'w', 1, 1, 0, 's', 2, 0, 0, 0, 1, 1, 0, 0)
	} else {
		w.b = append(w.b, 0, 0, 0)
	}
	n = b.maps.Int("n")
	w.le(n, 2)
	for i := 0; i < n; i++ {
		w.le(b.code(i), 4)
	}
	w.table(n, 3, func(i int) []byte {
		g := b.codeGlyph(i)
		if switched {
			h := (g + 1) % b.ng
			return []byte{0, 0, byte(g), byte(g >> 8), 0, byte(h), byte(h >> 8)}
		}
		return []byte{255, byte(g), byte(g >> 8)}
	})
	w.b = append(w.b, 0, 0, 0) // conditions, sets
	rule := func(in []int, out, width int) []byte {
		r := &bytesBuf{b: []byte{255, 0, byte(len(in)), 0, 1}}
		r.le(out, width)
		r.b = append(r.b, 0, byte(len(in)))
		for _, v := range in {
			r.le(v, width)
		}
		return append(r.b, 0)
	}
	n = b.ur.Int("n")
	w.le(n, 2)
	w.table(n, 3, func(i int) []byte { in, out := runeRule(i); return rule(in, out, 4) })
	n = b.gr.Int("n")
	w.le(n, 2)
	w.table(n, 3, func(i int) []byte { in, out := b.glyphRule(i); return rule(in, out, 2) })
	for _, k := range []drv.Op{b.kn, b.vk} {
		n := k.Int("n")
		w.le(n, 3)
		for i := 0; i < n; i++ {
			p, c, _ := kernPair(k, i)
			w.le(p<<16|c, 4)
		}
		for i := 0; i < n; i++ {
			_, _, v := kernPair(k, i)
			w.le(v, 1)
		}
	}
	return w.b
}

// build makes the same font with the builder, adding the entries of the tables in random order
func (b bulk) build(seed int) (*builder.Font, error) {
	rng := rand.New(rand.NewSource(int64(seed)))
	f := builder.New()
	uids := make([]uint64, b.ng)
	masks := map[int]*image.Alpha{}
	for g := range uids {
		n := b.px(g)
		img := masks[n]
		if img == nil {
			img = image.NewAlpha(image.Rect(0, 0, 2*n, 1))
			for k := 0; k < n; k++ {
				img.SetAlpha(2*k, 0, color.Alpha{A: 255})
			}
			masks[n] = img
		}
		uid, err := f.AddGlyph(img)
		if err != nil {
			return nil, err
		}
		uids[g] = uid
		if err := f.SetGlyphPlacement(uid, ggfnt.GlyphPlacement{Advance: uint8(b.adv(g))}); err != nil {
			return nil, err
		}
	}
	for _, i := range rng.Perm(b.names.Int("n")) {
		if err := f.SetGlyphName(uids[b.nameGlyph(i)], b.name(i)); err != nil {
			return nil, err
		}
	}
	for _, i := range rng.Perm(b.maps.Int("n")) {
		if err := f.Map(rune(b.code(i)), uids[b.codeGlyph(i)]); err != nil {
			return nil, err
		}
	}
	for _, i := range rng.Perm(b.kn.Int("n")) {
		p, c, v := kernPair(b.kn, i)
		f.SetKerningPair(uids[p], uids[c], int8(v))
	}
	for i := 0; i < b.ur.Int("n"); i++ {
		in, out := runeRule(i)
		seq := make([]rune, len(in))
		for k, v := range in {
			seq[k] = rune(v)
		}
		if err := f.AddSimpleUtf8RewriteRule(rune(out), seq...); err != nil {
			return nil, err
		}
	}
	for i := 0; i < b.gr.Int("n"); i++ {
		in, out := b.glyphRule(i)
		seq := make([]uint64, len(in))
		for k, v := range in {
			seq[k] = uids[v]
		}
		if err := f.AddGlyphRewriteRule(0, uint8(len(seq)), 0, seq, uids[out]); err != nil {
			return nil, err
		}
	}
	return f, nil
}

func opBulk(w *world, op drv.Op) any {
	b := readBulk(op.Sub("d"))
	res := m{"err": "", "same": false, "stable": true, "counts": []int{}}
	fail := func(err error) any {
		res["err"] = err.Error()
		return res
	}
	var raw []byte
	var stream bytes.Buffer
	if op.Bool("built") {
		bf, err := b.build(op.IntOr("seed", 1))
		if err != nil {
			return fail(err)
		}
		f, err := bf.Build()
		if err != nil {
			return fail(err)
		}
		raw = bytes.Clone(f.Data)
		f2, err := bf.Build()
		res["stable"] = err == nil && bytes.Equal(raw, f2.Data) && f.Validate(ggfnt.FmtDefault) == nil
		if err := bf.Export(&stream); err != nil {
			return fail(err)
		}
	} else {
		raw = b.raw()
		if op.Has("cut") { // the end is missing, or something follows it
			if n := op.Int("cut"); n > 0 {
				raw = raw[:max(1, len(raw)-n)]
			} else {
				raw = append(raw, make([]byte, -n)...)
			}
		}
		stream.WriteString("tggfnt")
		z, _ := gzip.NewWriterLevel(&stream, gzip.BestSpeed)
		z.Write(raw)
		z.Close()
	}
	var out bytes.Buffer
	font, err := ggfnt.Parse(&stream)
	if err != nil {
		return fail(err)
	}
	res["same"] = bytes.Equal(font.Data, raw) && font.RawSize() == len(raw)
	if !op.Bool("built") && len(raw) < 2<<20 { // and once more through an export
		if err := font.Export(&out); err != nil {
			return fail(err)
		}
		f2, err := ggfnt.Parse(&out)
		res["stable"] = err == nil && bytes.Equal(f2.Data, raw)
	}
	w.fonts[0], w.bulk = font, b
	rw, mp, k, g := font.Rewrites(), font.Mapping(), font.Kerning(), font.Glyphs()
	res["counts"] = []int{int(g.Count()), int(g.NamedCount()), int(mp.NumEntries()), int(rw.NumUTF8Rules()), int(rw.NumGlyphRules()), int(k.NumPairs()), int(k.NumVertPairs())}
	return res
}

func opBulkAsk(w *world, op drv.Op) any {
	f := w.font(op)
	g, mp, rw, k := f.Glyphs(), f.Mapping(), f.Rewrites(), f.Kerning()
	glyphs, names := []m{}, []int{}
	for _, i := range op.Ints("glyphs") {
		r := maskRes(g.RasterizeMask(ggfnt.GlyphIndex(i)))
		r["adv"] = int(g.Placement(ggfnt.GlyphIndex(i)).Advance)
		if int(g.Advance(ggfnt.GlyphIndex(i))) != r["adv"] {
			r["adv"] = -1
		}
		glyphs = append(glyphs, r)
	}
	for _, n := range op.Arr("names") {
		names = append(names, int(g.FindIndexByName(string(bytesOf(n)))))
	}
	sc := ggfnt.NewSettingsCache(f)
	cache := ggfnt.NewMappingCache(f, 4096)
	cps, cached, kept := []m{}, []m{}, []m{}
	for _, cp := range op.Ints("cps") {
		for i, list := range []*[]m{&cps, &cached, &kept} {
			var grp ggfnt.GlyphMappingGroup
			var ok bool
			switch i {
			case 0:
				grp, ok = mp.Utf8(rune(cp), sc.UnsafeSlice())
			case 1:
				grp, ok = mp.Utf8WithCache(rune(cp), sc)
			case 2:
				grp, ok = cache.Get(rune(cp), sc)
			}
			*list = append(*list, groupRes(grp, ok))
		}
	}
	hk, vk := []int{}, []int{}
	for _, p := range op.Arr("pairs") {
		v := drv.ToInts(p)
		hk = append(hk, int(k.Get(ggfnt.GlyphIndex(v[0]), ggfnt.GlyphIndex(v[1]))))
		vk = append(vk, int(k.GetVert(ggfnt.GlyphIndex(v[0]), ggfnt.GlyphIndex(v[1]))))
	}
	ur, gr := []m{}, []m{}
	for _, i := range op.Ints("urules") {
		ur = append(ur, utf8RuleRes(rw.GetUtf8Rule(uint16(i))))
	}
	for _, i := range op.Ints("grules") {
		gr = append(gr, glyphRuleRes(rw.GetGlyphRule(uint16(i))))
	}
	return m{"glyphs": glyphs, "names": names, "cps": cps, "cached": cached, "kept": kept, "kern": hk, "vkern": vk, "urules": ur, "grules": gr}
}

// opPass looks up a range of entries through the cache, every time with settings that tell
// whether the switch had to be evaluated
func opPass(w *world, op drv.Op) any {
	f, cache := w.font(op), w.caches[0]
	for i := 0; i < op.Int("drops"); i++ {
		cache.Drop()
		w.bulkVal = uint8(op.Int("val"))
	}
	vs, miss := []int{}, []int{}
	for i := op.Int("from"); i <= op.Int("to"); i++ {
		sc := ggfnt.NewSettingsCache(f)
		sc.Set(0, w.bulkVal)
		g, ok := cache.Get(rune(w.bulk.code(i)), sc)
		v := -1
		if ok && g.Size() == 1 && g.CaseBranch() == w.bulkVal {
			v = int(g.Select(0))
		}
		vs = append(vs, v)
		if _, cached := sc.GetMappingCase(0); cached {
			miss = append(miss, 1)
		} else {
			miss = append(miss, 0)
		}
	}
	return m{"v": vs, "miss": miss}
}

func initBulk() {
	table["bcache"] = func(w *world, op drv.Op) any {
		w.caches[0] = ggfnt.NewMappingCache(w.font(op), op.Int("size"))
		w.bulkVal = 0
		return m{}
	}
	table["pass"] = opPass
	table["bulk"] = opBulk
	table["bask"] = opBulkAsk
	table["brim"] = opBrim
}

// Fonts at the brim: one table (or the whole font) is filled until it's just full, first with
// large entries, then with the smallest ones. The sizes of the entries are measured.
type brim struct {
	kind        string
	big, pad, n int // entries: large ones, some of another size, small ones
}

func (c brim) make() *builder.Font {
	f := builder.New()
	must := func(err error) {
		if err != nil {
			panic(err.Error())
		}
	}
	f.SetAscent(200)
	f.SetDescent(200)
	glyph := func(img *image.Alpha) uint64 {
		uid, err := f.AddGlyph(img)
		must(err)
		return uid
	}
	dot := image.NewAlpha(image.Rect(0, -1, 1, 0))
	dot.Pix[0] = 255
	gs := []uint64{glyph(dot), glyph(dot), glyph(dot)}
	wide := func(n int) { // mapping entries of some 66 KB
		opts := make([]string, 254)
		for i := range opts {
			opts[i] = "w" + string(rune('a'+i/26)) + string(rune('a'+i%26))
		}
		key, err := f.AddSetting("s", opts...)
		must(err)
		sw, err := f.AddSwitch(key)
		must(err)
		for i := 0; i < n; i++ {
			groups, flags := make([][]uint64, 254), make([]ggfnt.AnimationFlags, 254)
			grp := make([]uint64, 128)
			for k := range grp {
				grp[k] = gs[((k+1)*(k+1))%3]
			}
			for k := range groups {
				groups[k], flags[k] = grp, 1
			}
			must(f.MapWithSwitch(rune(1000+i), uint8(sw), groups, flags))
		}
	}
	long := func(n int) {
		seq := make([]rune, 255)
		for k := range seq {
			seq[k] = rune(k + 1)
		}
		for i := 0; i < n; i++ {
			must(f.AddSimpleUtf8RewriteRule(66, seq...))
		}
	}
	switch c.kind {
	case "masks":
		row := image.NewAlpha(image.Rect(0, 0, 250, 1)) // every pixel an operation
		for i := range row.Pix {
			row.Pix[i] = uint8(1 + i*37%250)
		}
		for i := 0; i < c.big; i++ {
			glyph(row)
		}
		for i := 0; i < c.n; i++ {
			glyph(image.NewAlpha(image.Rect(0, 0, 0, 0)))
		}
	case "map":
		wide(c.big)
		for i := 0; i < c.pad; i++ {
			must(f.MapGroup(rune(50000+i), 0, gs[0], gs[2]))
		}
		for i := 0; i < c.n; i++ {
			must(f.Map(rune(60000+i), gs[0]))
		}
	case "urules", "font":
		if c.kind == "font" {
			wide(250)
			for i := 0; i < 14000; i++ {
				must(f.AddGlyphRewriteRule(0, 8, 0, []uint64{gs[0], gs[1], gs[0], gs[1], gs[0], gs[1], gs[0], gs[1]}, gs[0]))
			}
		}
		long(c.big)
		for i := 0; i < c.pad; i++ {
			must(f.AddSimpleUtf8RewriteRule(66, make([]rune, 17)...))
		}
		for i := 0; i < c.n; i++ {
			must(f.AddSimpleUtf8RewriteRule(66, 65))
		}
	case "grules":
		seq := make([]uint64, 255)
		for k := range seq {
			seq[k] = gs[k%3]
		}
		for i := 0; i < c.big; i++ {
			must(f.AddGlyphRewriteRule(100, 100, 55, seq, seq[:100]...))
		}
		for i := 0; i < c.pad; i++ {
			must(f.AddGlyphRewriteRule(0, 17, 0, seq[:17], gs[0]))
		}
		for i := 0; i < c.n; i++ {
			must(f.AddGlyphRewriteRule(0, 1, 0, seq[:1], gs[0]))
		}
	}
	return f
}

func le(b []byte, n int) int {
	v := 0
	for i := n - 1; i >= 0; i-- {
		v = v<<8 | int(b[i])
	}
	return v
}

// size tells the size of the table in a font, -1 if it couldn't be built
func (c brim) size() (int, *builder.Font, *ggfnt.Font) {
	bf := c.make()
	f, err := bf.Build()
	if err != nil {
		return -1, bf, nil
	}
	at, n, width := 0, 0, 0
	switch c.kind {
	case "font":
		return len(f.Data), bf, f
	case "masks":
		at, n, width = int(f.OffsetToGlyphMasks), int(f.Glyphs().Count()), 0
	case "map":
		at, n, width = int(f.OffsetToMapping)+2, int(f.Mapping().NumEntries()), 4
	case "urules":
		at, n = int(f.OffsetToUtf8Rewrites)+2, int(f.Rewrites().NumUTF8Rules())
	case "grules":
		at, n = int(f.OffsetToGlyphRewrites)+2, int(f.Rewrites().NumGlyphRules())
	}
	return le(f.Data[at+n*width+3*(n-1):], 3), bf, f
}

// opBrim fills up to the limit given: how large the table gets, with how many entries more it
// would be, whether that fails, and what becomes of the largest font.
func opBrim(w *world, op drv.Op) any {
	limit := op.Int("limit")
	kind := op.Str("kind")
	size := func(big, pad, n int) int {
		v, _, _ := brim{kind: kind, big: big, pad: pad, n: n}.size()
		return v
	}
	s0, s1, small, mid := size(0, 0, 1), size(1, 0, 1), size(0, 0, 2), size(0, 1, 1)
	big, step := s1-s0, small-s0
	mid -= s0
	res := m{"step": step, "limit": limit, "n": 0, "at": -1, "over": 0, "parsed": false, "same": false}
	if s0 < 0 || step <= 0 || big <= 0 || (step > 1 && mid <= 0) {
		return res
	}
	c := brim{kind: kind, big: (limit-s0)/big - 1}
	base := s0 + big*c.big
	// entries of the other size: as many as it takes for the remainder asked for
	for k := 0; k < step; k++ {
		if (limit-base-k*mid-op.Int("rem"))%step == 0 {
			c.pad = k
			break
		}
	}
	c.n = 1 + (limit-base-c.pad*mid)/step
	at, bf, font := c.size()
	res["n"], res["at"] = c.n, at
	c.n++
	res["over"], _, _ = c.size()
	if at >= 0 {
		var out bytes.Buffer
		err := bf.Export(&out)
		f, err2 := ggfnt.Parse(&out)
		res["parsed"] = err == nil && err2 == nil
		if err == nil && err2 == nil {
			res["same"] = bytes.Equal(f.Data, font.Data) && f.Glyphs().RasterizeMask(0).AlphaAt(0, -1).A == 255
		}
	}
	return res
}
