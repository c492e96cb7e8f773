package main

import (
	"runtime"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/tinne26/ggfnt/internal"
	"github.com/tinne26/ggfnt/verifdrv/drv"
)

// poolExec performs Retrieve/Release on a SingleInstancePool. Sequential runs name the
// holder on each operation; a "storm" operation uses the pool from several goroutines, and
// returns what happened in the order of the stamps taken right after Retrieve returned and
// right before Release was called, so that an instance is certainly held in between.
type poolExec struct {
	cfg  drv.Op
	pool internal.SingleInstancePool[item]
	held map[int]*item
	ids  map[*item]int
	next int
}

type item struct {
	owner int32 // only accessed by the current holder, checked by the race detector
	pad   [4]int
}

func (s *poolExec) id(p *item) int {
	if s.ids == nil {
		s.ids = map[*item]int{}
	}
	if v, ok := s.ids[p]; ok {
		return v
	}
	s.next++
	s.ids[p] = s.next
	return s.next
}

func (s *poolExec) Do(op drv.Op) any {
	if s.held == nil {
		s.held = map[int]*item{}
	}
	switch op.Str("op") {
	case "get":
		p := s.pool.Retrieve()
		s.held[op.Int("w")] = p
		return map[string]any{"inst": s.id(p)}
	case "put":
		w := op.Int("w")
		p := s.held[w]
		delete(s.held, w)
		s.pool.Release(p)
		return map[string]any{"inst": s.id(p)}
	case "storm":
		workers, rounds := op.Int("workers"), op.Int("rounds")
		var clock int64
		type rec struct {
			t, w int
			p    *item
			get  bool
		}
		recs := make([][]rec, workers)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-start
				for i := 0; i < rounds; i++ {
					p := s.pool.Retrieve()
					t1 := int(atomic.AddInt64(&clock, 1))
					p.owner = int32(w)
					if (i+w)%3 == 0 {
						runtime.Gosched()
					}
					p.pad[0] += int(p.owner)
					t2 := int(atomic.AddInt64(&clock, 1))
					s.pool.Release(p)
					recs[w] = append(recs[w], rec{t1, w, p, true}, rec{t2, w, p, false})
				}
			}(w)
		}
		close(start)
		wg.Wait()
		all := []rec{}
		for _, rs := range recs {
			all = append(all, rs...)
		}
		sort.Slice(all, func(i, j int) bool { return all[i].t < all[j].t })
		out := []any{}
		for _, r := range all {
			k := "put"
			if r.get {
				k = "get"
			}
			out = append(out, []any{k, r.w, s.id(r.p)})
		}
		return out
	}
	panic(drv.HarnessError("unknown op"))
}
