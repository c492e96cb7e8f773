package main

import (
	"bytes"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/verifdrv/drv"
)

func groupRes(g ggfnt.GlyphMappingGroup, found bool) m {
	if !found {
		return m{"found": false, "size": 0, "flags": 0, "case": 0, "glyphs": []int{}}
	}
	glyphs := []int{}
	for i := 0; i < int(g.Size()); i++ {
		glyphs = append(glyphs, int(g.Select(uint8(i))))
	}
	return m{"found": true, "size": int(g.Size()), "flags": int(g.AnimationFlags()), "case": int(g.CaseBranch()), "glyphs": glyphs}
}

func initMapping() {
	table["s.new"] = func(w *world, op drv.Op) any {
		sc := ggfnt.NewSettingsCache(w.font(op))
		w.sets[op.Int("s")] = sc
		return m{"vals": ints(bytes.Clone(sc.UnsafeSlice()))}
	}
	table["s.set"] = func(w *world, op drv.Op) any {
		sc := w.sets[op.Int("s")]
		ma, ca := sc.Set(ggfnt.SettingKey(op.Int("k")), uint8(op.Int("v")))
		return m{"ma": ma, "ca": ca, "vals": ints(bytes.Clone(sc.UnsafeSlice()))}
	}
	table["s.get"] = func(w *world, op drv.Op) any {
		sc := w.sets[op.Int("s")]
		return m{"v": int(sc.Get(ggfnt.SettingKey(op.Int("k"))))}
	}
	// what the cache currently serves: -1 stands for nothing cached
	table["s.case"] = func(w *world, op drv.Op) any {
		v, ok := w.sets[op.Int("s")].GetMappingCase(uint8(op.Int("sw")))
		if !ok {
			return m{"v": -1}
		}
		return m{"v": int(v)}
	}
	table["s.cond"] = func(w *world, op drv.Op) any {
		v, ok := w.sets[op.Int("s")].GetRewriteCondition(uint8(op.Int("c")))
		if !ok {
			return m{"v": -1}
		}
		if v {
			return m{"v": 1}
		}
		return m{"v": 0}
	}
	// fresh evaluation, stored in the cache the way the library's own users do
	table["s.evalcase"] = func(w *world, op drv.Op) any {
		sc := w.sets[op.Int("s")]
		v := w.font(op).Mapping().EvaluateSwitch(uint8(op.Int("sw")), sc.UnsafeSlice())
		sc.CacheMappingCase(uint8(op.Int("sw")), v)
		return m{"v": int(v)}
	}
	table["s.evalcond"] = func(w *world, op drv.Op) any {
		sc := w.sets[op.Int("s")]
		v := w.font(op).Rewrites().EvaluateCondition(uint8(op.Int("c")), sc.UnsafeSlice())
		sc.CacheRewriteCondition(uint8(op.Int("c")), v)
		if v {
			return m{"v": 1}
		}
		return m{"v": 0}
	}
	// evaluations under explicit setting values
	table["evalcond"] = func(w *world, op drv.Op) any {
		vals := bytesOf(op["vals"])
		orig := bytes.Clone(vals)
		f := w.font(op)
		data := bytes.Clone(f.Data)
		v := f.Rewrites().EvaluateCondition(uint8(op.Int("c")), vals)
		return m{"v": v, "same": bytes.Equal(orig, vals) && bytes.Equal(data, f.Data)}
	}
	// one condition under many setting values: the list of the results
	table["evalconds"] = func(w *world, op drv.Op) any {
		f := w.font(op)
		data := bytes.Clone(f.Data)
		out := []bool{}
		same := true
		for _, v := range op.Arr("vecs") {
			vals := bytesOf(v)
			orig := bytes.Clone(vals)
			out = append(out, f.Rewrites().EvaluateCondition(uint8(op.Int("c")), vals))
			same = same && bytes.Equal(orig, vals)
		}
		return m{"v": out, "same": same && bytes.Equal(data, f.Data)}
	}
	table["evalswitch"] = func(w *world, op drv.Op) any {
		return m{"v": int(w.font(op).Mapping().EvaluateSwitch(uint8(op.Int("sw")), bytesOf(op["vals"])))}
	}
	table["utf8"] = func(w *world, op drv.Op) any {
		g, ok := w.font(op).Mapping().Utf8(rune(op.Int("cp")), bytesOf(op["vals"]))
		return groupRes(g, ok)
	}
	table["ascii"] = func(w *world, op drv.Op) any {
		g, ok := w.font(op).Mapping().Ascii(byte(op.Int("cp")), bytesOf(op["vals"]))
		return groupRes(g, ok)
	}
	table["utf8c"] = func(w *world, op drv.Op) any {
		g, ok := w.font(op).Mapping().Utf8WithCache(rune(op.Int("cp")), w.sets[op.Int("s")])
		return groupRes(g, ok)
	}
	// selecting outside of the group must be refused
	table["select"] = func(w *world, op drv.Op) any {
		g, ok := w.font(op).Mapping().Utf8(rune(op.Int("cp")), bytesOf(op["vals"]))
		if !ok {
			return m{"v": -1}
		}
		return m{"v": int(g.Select(uint8(op.Int("choice"))))}
	}
	table["c.new"] = func(w *world, op drv.Op) any {
		w.caches[op.Int("c")] = ggfnt.NewMappingCache(w.font(op), op.Int("size"))
		return m{}
	}
	// With "sw" the lookup is performed with fresh settings of the same values: they tell
	// afterwards whether the switch had to be evaluated ("miss" 1) or the answer came from
	// an entry of the mapping cache ("miss" 0).
	table["c.get"] = func(w *world, op drv.Op) any {
		sc := w.sets[op.Int("s")]
		if op.Has("sw") {
			fresh := ggfnt.NewSettingsCache(w.font(op))
			for k, v := range sc.UnsafeSlice() {
				fresh.Set(ggfnt.SettingKey(k), v)
			}
			sc = fresh
		}
		g, ok := w.caches[op.Int("c")].Get(rune(op.Int("cp")), sc)
		res := groupRes(g, ok)
		res["miss"] = -1
		if op.Has("sw") {
			res["miss"] = 0
			if _, cached := sc.GetMappingCase(uint8(op.Int("sw"))); cached {
				res["miss"] = 1
			}
		}
		return res
	}
	table["c.drop"] = func(w *world, op drv.Op) any {
		w.caches[op.Int("c")].Drop()
		return m{}
	}
	table["c.reset"] = func(w *world, op drv.Op) any {
		w.caches[op.Int("c")].Reset(w.font(op))
		return m{}
	}
}
