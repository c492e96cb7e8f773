// Driver for the parts of ggfnt that are only reachable through its internal packages.
package main

import (
	"os"

	"github.com/tinne26/ggfnt/internal"
	"github.com/tinne26/ggfnt/verifdrv/drv"
)

type ring struct {
	buf internal.CircularBufferU16[int]
}

func (s *ring) obs(v int, ok bool) any {
	return map[string]any{"v": v, "ok": ok, "size": int(s.buf.Size()), "cap": int(s.buf.Capacity()), "empty": s.buf.IsEmpty()}
}

func (s *ring) Do(op drv.Op) any {
	switch op.Str("op") {
	case "push":
		s.buf.Push(op.Int("x"))
		return s.obs(0, true)
	case "pophead":
		v := s.buf.PopHead()
		return s.obs(v, true)
	case "poptail":
		v := s.buf.PopTail()
		return s.obs(v, true)
	case "head":
		v := s.buf.Head()
		return s.obs(v, true)
	case "tail":
		v := s.buf.Tail()
		return s.obs(v, true)
	case "peek":
		v, ok := s.buf.PeekAhead()
		return s.obs(v, ok)
	case "confirm":
		s.buf.ConfirmPeeks()
		return s.obs(0, true)
	case "discard":
		s.buf.DiscardPeeks()
		return s.obs(0, true)
	case "clear":
		s.buf.Clear()
		return s.obs(0, true)
	case "setcap":
		ok := s.buf.SetCapacity(uint16(op.Int("n")))
		return s.obs(0, ok)
	case "spin":
		n, x := op.Int("n"), op.Int("x")
		if !s.buf.IsEmpty() || s.buf.Capacity() == 0 || n == 0 {
			return s.obs(0, false)
		}
		ok, last := true, 0
		for i := 0; i < n; i++ {
			s.buf.Push(x + i)
			last = s.buf.PopHead()
			if last != x+i {
				ok = false
			}
		}
		return s.obs(last, ok)
	case "setmincap":
		ok := s.buf.SetMinCapacity(uint16(op.Int("n")))
		return s.obs(0, ok)
	}
	panic(drv.HarnessError("unknown op"))
}

func main() {
	kind := os.Args[1]
	drv.Main(os.Args[2], os.Args[3], func(run drv.Run) drv.Exec {
		switch kind {
		case "ring":
			return &ring{}
		case "pool":
			return &poolExec{cfg: run.Cfg}
		}
		panic(drv.HarnessError("unknown kind"))
	})
}
