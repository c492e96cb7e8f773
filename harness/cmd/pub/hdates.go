package main

import (
	"bytes"
	"image"
	"image/color"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/verifdrv/drv"
)

type hdates struct{ b *builder.Font }

func (h *hdates) get() [][]int {
	return [][]int{dateInts(h.b.GetFirstVerDate()), dateInts(h.b.GetMajorVerDate()), dateInts(h.b.GetMinorVerDate())}
}

func (h *hdates) set(k int, d ggfnt.Date) error {
	switch k {
	case 1:
		return h.b.SetFirstVerDate(d)
	case 2:
		return h.b.SetMajorVerDate(d)
	default:
		return h.b.SetMinorVerDate(d)
	}
}

func fontDates(f *ggfnt.Font) [][]int {
	h := f.Header()
	return [][]int{dateInts(h.FirstVersionDate()), dateInts(h.MajorVersionDate()), dateInts(h.MinorVersionDate())}
}

func opHNew(w *world, op drv.Op) any {
	b := builder.New()
	img := image.NewAlpha(image.Rect(0, -1, 1, 0))
	img.SetAlpha(0, -1, color.Alpha{255})
	if _, err := b.AddGlyph(img); err != nil {
		return m{"dates": err.Error()}
	}
	w.h = &hdates{b}
	d := op.Ints("date")
	for k := 1; k <= 3; k++ {
		w.h.set(k, ggfnt.Date{Year: uint16(d[0]), Month: uint8(d[1]), Day: uint8(d[2])})
	}
	return m{"dates": w.h.get()}
}

func opHSet(w *world, op drv.Op) any {
	err := w.h.set(op.Int("k"), dateOf(op))
	return m{"ok": err == nil, "dates": w.h.get()}
}

func opHBuild(w *world, op drv.Op) any {
	f, err := w.h.b.Build()
	if err != nil {
		return m{"ok": false}
	}
	var buf bytes.Buffer
	if err := f.Export(&buf); err != nil {
		return m{"ok": false}
	}
	p, err := ggfnt.Parse(&buf)
	if err != nil {
		return m{"ok": false}
	}
	return m{"ok": true, "built": fontDates(f), "parsed": fontDates(p)}
}
