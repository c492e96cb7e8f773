// Package drv is the generic script executor of the verification harness: it reads runs
// (one JSON object per line: id, cfg, ops) from a script file, performs every operation on
// the real code and writes the observed trace (id, cfg, evs) to the trace file.
//
// Every event is the operation itself plus "p" ("" if the call returned, "panic", "hang"
// or "crash" otherwise) and "r" (the observed result; absent unless p is "").
package drv

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"sync"
	"syscall"
	"time"
)

type Op map[string]any

type Run struct {
	ID  int    `json:"id"`
	Cfg Op     `json:"cfg"`
	Ops []Op   `json:"ops"`
	Tag string `json:"tag"`
}

type outRun struct {
	ID  int    `json:"id"`
	Tag string `json:"tag"`
	Cfg Op     `json:"cfg"`
	Evs []Op   `json:"evs"`
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &u) != nil {
		return 0
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// Exec performs operations of one run.
type Exec interface {
	Do(op Op) any
}

// Multi is implemented by executors producing their events on their own (concurrent runs).
type Multi interface {
	RunAll(ops []Op) []Op
}

func (o Op) Int(k string) int {
	switch v := o[k].(type) {
	case float64:
		return int(v)
	case int:
		return v
	case bool:
		if v {
			return 1
		}
		return 0
	}
	panic(HarnessError("missing int field " + k))
}
func (o Op) Has(k string) bool { _, ok := o[k]; return ok }
func (o Op) IntOr(k string, d int) int {
	if !o.Has(k) {
		return d
	}
	return o.Int(k)
}
func (o Op) Str(k string) string {
	if v, ok := o[k].(string); ok {
		return v
	}
	panic(HarnessError("missing string field " + k))
}
func (o Op) Bool(k string) bool { v, _ := o[k].(bool); return v }
func (o Op) Ints(k string) []int {
	return ToInts(o[k])
}
func ToInts(v any) []int {
	arr, _ := v.([]any)
	out := make([]int, len(arr))
	for i, e := range arr {
		out[i] = int(e.(float64))
	}
	return out
}
func (o Op) Strs(k string) []string {
	arr, _ := o[k].([]any)
	out := make([]string, len(arr))
	for i, e := range arr {
		out[i] = e.(string)
	}
	return out
}
func (o Op) Arr(k string) []any { arr, _ := o[k].([]any); return arr }
func (o Op) Sub(k string) Op {
	if m, ok := o[k].(map[string]any); ok {
		return Op(m)
	}
	return Op{}
}

// Main executes the script with executors created by mk.
func Main(script, trace string, mk func(Run) Exec) {
	in, err := os.Open(script)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out, err := os.Create(trace)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w := bufio.NewWriterSize(out, 1<<20)

	var mu sync.Mutex
	var cur outRun
	var curOp Op
	// An operation hangs when it has used its time of processor and wall clock, or a much
	// longer time of waiting: what it takes depends on the load of the machine.
	var start time.Time
	var startCPU, factor time.Duration
	begin := func(slow int) {
		start, startCPU, factor = time.Now(), cpuTime(), time.Duration(slow)
	}
	hangs := func() bool {
		if start.IsZero() {
			return false
		}
		wall := time.Since(start)
		return wall > 60*time.Second*factor || wall > 20*time.Second*factor && cpuTime()-startCPU > 15*time.Second*factor
	}
	go func() { // watchdog
		for {
			time.Sleep(200 * time.Millisecond)
			mu.Lock()
			if hangs() {
				ev := Op{}
				for k, v := range curOp {
					ev[k] = v
				}
				ev["p"] = "hang"
				cur.Evs = append(cur.Evs, ev)
				b, _ := json.Marshal(cur)
				w.Write(b)
				w.WriteByte('\n')
				w.Flush()
				out.Close()
				os.Exit(17)
			}
			mu.Unlock()
		}
	}()

	rd := bufio.NewReaderSize(in, 1<<20)
	for {
		line, rerr := rd.ReadBytes('\n')
		if len(line) > 1 {
			var run Run
			if err := json.Unmarshal(line, &run); err != nil {
				fmt.Fprintln(os.Stderr, "bad script line:", err)
				os.Exit(2)
			}
			mu.Lock()
			if run.Cfg == nil {
				run.Cfg = Op{}
			}
			cur = outRun{ID: run.ID, Tag: run.Tag, Cfg: run.Cfg, Evs: []Op{}}
			curOp = Op{"op": "init"}
			begin(1)
			mu.Unlock()
			ex := mk(run)
			if m, ok := ex.(Multi); ok {
				evs := m.RunAll(run.Ops)
				mu.Lock()
				cur.Evs = evs
				mu.Unlock()
			} else {
				for _, op := range run.Ops {
					mu.Lock()
					curOp = op
					begin(op.IntOr("slow", 1))
					mu.Unlock()
					ev := Guard(ex, op)
					mu.Lock()
					cur.Evs = append(cur.Evs, ev)
					mu.Unlock()
				}
			}
			mu.Lock()
			start = time.Time{}
			b, err := json.Marshal(cur)
			mu.Unlock()
			if err != nil {
				fmt.Fprintln(os.Stderr, "marshal:", err)
				os.Exit(2)
			}
			w.Write(b)
			w.WriteByte('\n')
			w.Flush()
		}
		if rerr == io.EOF {
			break
		}
		if rerr != nil {
			fmt.Fprintln(os.Stderr, rerr)
			os.Exit(2)
		}
	}
	w.Flush()
	if err := out.Close(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// HarnessError is panicked by executors when a script itself is wrong.
type HarnessError string

// Guard performs one operation recovering from panics of the code under test.
func Guard(ex Exec, op Op) (ev Op) {
	ev = Op{}
	fill := func() { // executors may drop bulky fields from the operation
		for k, v := range op {
			ev[k] = v
		}
	}
	defer func() {
		if r := recover(); r != nil {
			if he, ok := r.(HarnessError); ok {
				fmt.Fprintln(os.Stderr, "harness error:", string(he))
				os.Exit(2)
			}
			if s, ok := r.(string); ok && len(s) > 4 && s[:4] == "drv:" {
				fmt.Fprintln(os.Stderr, "harness error:", s)
				os.Exit(2)
			}
			fill()
			ev["p"] = "panic"
			ev["msg"] = fmt.Sprint(r)
		}
	}()
	res := ex.Do(op)
	fill()
	ev["p"] = ""
	if res != nil {
		ev["r"] = res
	}
	return ev
}
