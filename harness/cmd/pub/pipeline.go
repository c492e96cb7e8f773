package main

import (
	"bytes"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/rerules"
	"github.com/tinne26/ggfnt/verifdrv/drv"
)

// pipeline chains everything between a text and what is drawn, the way a renderer does:
// code points are rewritten, looked up, glyphs chosen and rewritten, and measured
type pipeline struct {
	f      *ggfnt.Font
	s      *ggfnt.SettingsCache
	c      *ggfnt.MappingCache // nil: lookups use the settings cache, or the values
	values bool
	u      rerules.Utf8Tester
	g      rerules.GlyphTester
	n      int
	chars  []int
	glyphs []int // since the last break
	told   int   // how many glyphs were told already
	err    error
}

func (p *pipeline) note(err error) {
	if err != nil {
		p.err = err
	}
}

func (p *pipeline) glyph(g ggfnt.GlyphIndex) { p.glyphs = append(p.glyphs, int(g)) }

func (p *pipeline) char(cp rune) {
	var group ggfnt.GlyphMappingGroup
	var found bool
	switch {
	case p.c != nil:
		group, found = p.c.Get(cp, p.s)
	case p.values:
		group, found = p.f.Mapping().Utf8(cp, p.s.UnsafeSlice())
	default:
		group, found = p.f.Mapping().Utf8WithCache(cp, p.s)
	}
	glyph := ggfnt.GlyphMissing
	if found {
		glyph = group.Select(uint8(p.n % int(group.Size())))
	}
	p.n++
	p.chars = append(p.chars, int(cp))
	p.note(p.g.Feed(glyph, p.glyph))
}

func (p *pipeline) res(flushed bool) m {
	res := m{"ok": p.err == nil, "chars": append([]int{}, p.chars...), "glyphs": append([]int{}, p.glyphs[p.told:]...)}
	res["pend"] = []int{p.u.NumPendingRunes(), p.g.NumPendingGlyphs()}
	p.chars, p.told, p.err = nil, len(p.glyphs), nil
	if flushed {
		advs, kerns, vkerns := []int{}, []int{}, []int{}
		for i, g := range p.glyphs {
			a := 0
			if g < int(p.f.Glyphs().Count()) {
				a = int(p.f.Glyphs().Advance(ggfnt.GlyphIndex(g)))
			}
			advs = append(advs, a)
			if i > 0 {
				kerns = append(kerns, int(p.f.Kerning().Get(ggfnt.GlyphIndex(p.glyphs[i-1]), ggfnt.GlyphIndex(g))))
				vkerns = append(vkerns, int(p.f.Kerning().GetVert(ggfnt.GlyphIndex(p.glyphs[i-1]), ggfnt.GlyphIndex(g))))
			}
		}
		res["advs"], res["kerns"], res["vkerns"] = advs, kerns, vkerns
		p.glyphs, p.told = nil, 0
	}
	return res
}

// built makes a font with the builder: every call must succeed
func built(w *world, op drv.Op) any {
	b := &bworld{b: builder.New()}
	for i, c := range op.Arr("calls") {
		if out, _ := b.step(drv.Op(c.(map[string]any))); out != "ok" {
			return m{"ok": false, "at": i, "out": out}
		}
	}
	f, err := b.b.Build()
	if err == nil && op.Bool("parse") {
		var stream bytes.Buffer
		if err = f.Export(&stream); err == nil {
			f, err = ggfnt.Parse(&stream)
		}
	}
	w.fonts[op.Int("f")] = f
	return m{"ok": err == nil}
}

func initPipelines() {
	table["p.built"] = built
	pipe := func(w *world, op drv.Op) *pipeline { return w.pipes[op.Int("pl")] }
	table["p.new"] = func(w *world, op drv.Op) any {
		p := &pipeline{f: w.font(op), s: w.sets[op.Int("s")]}
		if n := op.Int("size"); n > 0 {
			p.c = ggfnt.NewMappingCache(p.f, n)
		} else {
			p.values = n < 0
		}
		for _, i := range op.Ints("urules") {
			p.note(p.u.AddRule(p.f.Rewrites().GetUtf8Rule(uint16(i))))
		}
		for _, i := range op.Ints("grules") {
			p.note(p.g.AddRule(p.f.Rewrites().GetGlyphRule(uint16(i))))
		}
		w.pipes[op.Int("pl")] = p
		return p.res(false)
	}
	table["p.begin"] = func(w *world, op drv.Op) any {
		p := pipe(w, op)
		p.note(p.u.BeginSequence(p.f, p.s))
		p.note(p.g.BeginSequence(p.f, p.s))
		return p.res(false)
	}
	// after a change of the settings, or with another settings cache
	table["p.refresh"] = func(w *world, op drv.Op) any {
		p := pipe(w, op)
		p.s = w.sets[op.Int("s")]
		p.u.RefreshConditions(p.f, p.s)
		p.g.RefreshConditions(p.f, p.s)
		if p.c != nil {
			p.c.Drop()
		}
		return p.res(false)
	}
	table["p.feed"] = func(w *world, op drv.Op) any {
		p := pipe(w, op)
		for _, x := range op.Ints("xs") {
			p.note(p.u.Feed(rune(x), p.char))
		}
		return p.res(false)
	}
	table["p.break"] = func(w *world, op drv.Op) any {
		p := pipe(w, op)
		p.u.Break(p.char)
		p.g.Break(p.glyph)
		return p.res(true)
	}
	table["p.finish"] = func(w *world, op drv.Op) any {
		p := pipe(w, op)
		p.u.FinishSequence(p.char)
		p.g.FinishSequence(p.glyph)
		return p.res(true)
	}
}
