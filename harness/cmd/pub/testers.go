package main

import (
	"fmt"
	"strings"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/rerules"
	"github.com/tinne26/ggfnt/verifdrv/drv"
)

// tester hides the two kinds of testers behind one interface
type tester struct {
	g *rerules.GlyphTester
	u *rerules.Utf8Tester
}

func (t *tester) obs(op drv.Op, err error, out []int) m {
	res := m{"ok": err == nil, "out": out}
	if out == nil {
		res["out"] = []int{}
	}
	t.state(res)
	return res
}

func (t *tester) state(res m) {
	if t.g != nil {
		res["n"], res["on"], res["pend"] = t.g.NumRules(), t.g.IsOperating(), t.g.NumPendingGlyphs()
	} else {
		res["n"], res["on"], res["pend"] = t.u.NumRules(), t.u.IsOperating(), t.u.NumPendingRunes()
	}
}

// do performs a tester operation; panics of the code under test are part of the result
// ("refused"), together with the state after them
func (t *tester) do(w *world, op drv.Op) any {
	var out []int
	var err error
	ok := true
	// the operations of "via" (on other testers) happen inside of the callbacks, one each
	via, sub := op.Arr("via"), []drv.Op{}
	nested := func() {
		if len(via) > 0 {
			next := drv.Op(via[0].(map[string]any))
			via = via[1:]
			sub = append(sub, drv.Guard(w, next))
		}
	}
	refused := func() (refused bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(drv.HarnessError); is {
					panic(r)
				}
				if s, is := r.(string); is && len(s) > 4 && s[:4] == "drv:" {
					panic(r)
				}
				refused = true
				op["msg"] = fmt.Sprint(r)
			}
		}()
		gfn := func(g ggfnt.GlyphIndex) { out = append(out, int(g)); nested() }
		ufn := func(u rune) { out = append(out, int(u)); nested() }
		var font *ggfnt.Font
		var sc *ggfnt.SettingsCache
		if op.Has("f") {
			font = w.font(op)
		}
		if op.Has("s") {
			sc = w.sets[op.Int("s")]
			if sc == nil {
				panic("no such settings")
			}
		}
		g := t.g != nil
		switch op.Str("op") {
		case "t.add", "t.del":
			var data []byte
			if op.Has("data") {
				data = bytesOf(op["data"])
			} else if g {
				data = font.Rewrites().GetGlyphRule(uint16(op.Int("rule"))).Data
			} else {
				data = font.Rewrites().GetUtf8Rule(uint16(op.Int("rule"))).Data
			}
			add := op.Str("op") == "t.add"
			switch {
			case g && add:
				err = t.g.AddRule(ggfnt.GlyphRewriteRule{Data: data})
			case g:
				ok = t.g.RemoveRule(ggfnt.GlyphRewriteRule{Data: data})
			case add:
				err = t.u.AddRule(ggfnt.Utf8RewriteRule{Data: data})
			default:
				ok = t.u.RemoveRule(ggfnt.Utf8RewriteRule{Data: data})
			}
		case "t.delall":
			if g {
				t.g.RemoveAllRules()
			} else {
				t.u.RemoveAllRules()
			}
		case "t.begin":
			if g {
				err = t.g.BeginSequence(font, sc)
			} else {
				err = t.u.BeginSequence(font, sc)
			}
		case "t.resync":
			if g {
				err = t.g.Resync(font, sc)
			} else {
				err = t.u.Resync(font, sc)
			}
		case "t.refresh":
			if g {
				t.g.RefreshConditions(font, sc)
			} else {
				t.u.RefreshConditions(font, sc)
			}
		case "t.feed":
			for _, x := range op.Ints("xs") {
				var e error
				if g {
					e = t.g.Feed(ggfnt.GlyphIndex(x), gfn)
				} else {
					e = t.u.Feed(rune(x), ufn)
				}
				if e != nil {
					err = e
				}
			}
		case "t.break":
			if g {
				t.g.Break(gfn)
			} else {
				t.u.Break(ufn)
			}
		case "t.finish":
			if g {
				t.g.FinishSequence(gfn)
			} else {
				t.u.FinishSequence(ufn)
			}
		default:
			panic(drv.HarnessError("unknown tester op"))
		}
		return false
	}()
	res := t.obs(op, err, out)
	res["refused"] = refused
	res["lim"] = err != nil && strings.Contains(err.Error(), "hit a limit")
	if !ok {
		res["ok"] = false
	}
	if op.Has("via") {
		for len(via) > 0 {
			nested()
		}
		delete(op, "via")
		res["sub"] = sub
	}
	return res
}

func newTester(kind string) *tester {
	if kind == "g" {
		return &tester{g: &rerules.GlyphTester{}}
	}
	return &tester{u: &rerules.Utf8Tester{}}
}

func initTesters() {
	table["t.new"] = func(w *world, op drv.Op) any {
		t := newTester(op.Str("kind"))
		w.testers[op.Int("t")] = t
		return t.obs(op, nil, nil)
	}
	for _, name := range []string{"t.add", "t.del", "t.delall", "t.begin", "t.resync", "t.refresh", "t.feed", "t.break", "t.finish"} {
		table[name] = func(w *world, op drv.Op) any {
			return w.testers[op.Int("t")].do(w, op)
		}
	}
}
