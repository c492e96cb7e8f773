package main

import (
	"sync"

	"github.com/tinne26/ggfnt/verifdrv/drv"
)

// concExec performs several scripts concurrently, one goroutine each, every one on its own
// world; fonts opened before the "par" operation are shared by all of them.
type concExec struct{}

func (c *concExec) Do(op drv.Op) any { panic(drv.HarnessError("unexpected")) }

func (c *concExec) RunAll(ops []drv.Op) []drv.Op {
	base := newWorld()
	evs := []drv.Op{}
	for _, op := range ops {
		if op.Str("op") != "par" {
			evs = append(evs, drv.Guard(base, op))
			continue
		}
		scripts := op.Arr("scripts")
		res := make([][]drv.Op, len(scripts))
		start := make(chan struct{})
		worlds := make([]*world, len(scripts))
		var wg sync.WaitGroup
		for i, s := range scripts {
			wg.Add(1)
			list := s.([]any)
			w := newWorld()
			for k, f := range base.fonts {
				w.fonts[k] = f
			}
			w.base = base.base
			worlds[i] = w
			if op.Has("turns") {
				wg.Done()
				continue
			}
			go func(i int) {
				defer wg.Done()
				<-start
				for _, o := range list {
					ev := drv.Guard(w, drv.Op(o.(map[string]any)))
					ev["w"] = i + 1
					res[i] = append(res[i], ev)
				}
			}(i)
		}
		close(start)
		wg.Wait()
		// one goroutine: everybody does an equal part of its script on each of its turns
		turns, taken := op.Ints("turns"), make([]int, len(scripts)+1)
		for _, u := range turns {
			taken[u]++
		}
		total := append([]int{}, taken...)
		clear(taken)
		for _, u := range turns {
			list := scripts[u-1].([]any)
			taken[u]++
			for len(res[u-1]) < len(list)*taken[u]/total[u] {
				ev := drv.Guard(worlds[u-1], drv.Op(list[len(res[u-1])].(map[string]any)))
				ev["w"] = u
				res[u-1] = append(res[u-1], ev)
			}
		}
		for _, r := range res {
			evs = append(evs, r...)
		}
	}
	return evs
}
