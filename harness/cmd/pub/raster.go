package main

import (
	"bytes"
	"image"
	"image/color"

	"github.com/tinne26/ggfnt/mask"
	"github.com/tinne26/ggfnt/verifdrv/drv"
)

// pixels lists the non-zero pixels of the image as x, y, alpha, row by row
func pixels(img *image.Alpha) [][3]int {
	out := [][3]int{}
	if img == nil {
		return out
	}
	r := img.Bounds()
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			if a := img.AlphaAt(x, y).A; a != 0 {
				out = append(out, [3]int{x, y, int(a)})
			}
		}
	}
	return out
}

func rectInts(r image.Rectangle) []int { return []int{r.Min.X, r.Min.Y, r.Max.X, r.Max.Y} }

func maskRes(img *image.Alpha) m {
	if img == nil {
		return m{"nil": true, "rect": []int{}, "px": [][3]int{}}
	}
	return m{"nil": false, "rect": rectInts(img.Bounds()), "px": pixels(img)}
}

// past: images and codes told before, which never change
type past struct {
	imgs  []*image.Alpha
	codes [][]byte
	pix   [][]byte
	rects []image.Rectangle
	was   [][]byte
}

func (p *past) keep(img *image.Alpha, code []byte) bool {
	same := true
	for i, old := range p.imgs {
		same = same && bytes.Equal(old.Pix, p.pix[i]) && old.Rect == p.rects[i]
	}
	for i, old := range p.codes {
		same = same && bytes.Equal(old, p.was[i])
	}
	if img != nil && len(img.Pix) < 1<<14 {
		if len(p.imgs) == 12 {
			p.imgs, p.pix, p.rects = p.imgs[1:], p.pix[1:], p.rects[1:]
		}
		p.imgs, p.pix, p.rects = append(p.imgs, img), append(p.pix, bytes.Clone(img.Pix)), append(p.rects, img.Rect)
	}
	if code != nil && len(code) < 1<<14 {
		if len(p.codes) == 12 {
			p.codes, p.was = p.codes[1:], p.was[1:]
		}
		p.codes, p.was = append(p.codes, code), append(p.was, bytes.Clone(code))
	}
	return same
}

func opRasterize(w *world, op drv.Op) any {
	data := bytesOf(op["data"])
	orig := bytes.Clone(data)
	img, err := mask.Rasterize(data)
	res := maskRes(img)
	res["ok"] = err == nil
	res["same"] = bytes.Equal(orig, data)
	res["past"] = w.past.keep(img, nil)
	return res
}

// opEncode encodes a mask with the world's (reused) encoder and rasterizes the result.
// rect is the rectangle of the mask, outer the rectangle of the image it is a part of.
func makeMask(op drv.Op) (*image.Alpha, *image.Alpha) {
	outer := op.Ints("outer")
	rect := op.Ints("rect")
	big := image.NewAlpha(image.Rect(outer[0], outer[1], outer[2], outer[3]))
	for i := range big.Pix {
		big.Pix[i] = uint8(op.IntOr("fill", 0))
	}
	r := image.Rect(rect[0], rect[1], rect[2], rect[3])
	img := big
	if r != big.Rect {
		img = big.SubImage(r).(*image.Alpha)
	}
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			img.SetAlpha(x, y, color.Alpha{})
		}
	}
	for _, p := range op.Arr("px") {
		v := drv.ToInts(p)
		img.SetAlpha(v[0], v[1], color.Alpha{A: uint8(v[2])})
	}
	return img, big
}

func opEncode(w *world, op drv.Op) any {
	img, big := makeMask(op)
	before := bytes.Clone(big.Pix)
	prefix := bytesOf(op["prefix"])
	buf := append(make([]byte, 0, len(prefix)+op.IntOr("room", 0)), prefix...)
	if len(prefix) == 0 && op.IntOr("room", 0) == 0 {
		buf = nil
	}
	out := w.enc.AppendRasterOps(buf, img)
	var fresh mask.Encoder
	out2 := fresh.AppendRasterOps(nil, img)
	kept := len(out) >= len(prefix) && bytes.Equal(out[:len(prefix)], prefix)
	var ops []byte
	if kept {
		ops = out[len(prefix):]
	}
	got, err := mask.Rasterize(ops)
	res := maskRes(got)
	res["ok"] = err == nil
	res["kept"] = kept
	res["det"] = bytes.Equal(ops, out2)
	res["src"] = bytes.Equal(before, big.Pix)
	res["tight"] = rectInts(mask.ComputeRect(img))
	if len(ops) <= 400 {
		res["code"] = ints(ops)
	} else {
		res["code"] = []int{}
	}
	res["ncode"] = len(ops)
	res["past"] = w.past.keep(nil, out) && w.past.keep(got, out2)
	return res
}
