package main

import (
	"fmt"
	"strings"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/verifdrv/drv"
)

// opYears evaluates IsValid for every month and day of the years from..to. The answers are
// grouped: "pats" lists the different years' patterns and "idx" the pattern of each year.
// A pattern lists, for each month 0..12, the intervals of valid days, and the number of
// valid (month, day) combinations with months above 12.
func opYears(w *world, op drv.Op) any {
	from, to := op.Int("from"), op.Int("to")
	var pats []any
	seen := map[string]int{}
	idx := []int{}
	for y := from; y <= to; y++ {
		months := [][]int{}
		over := 0
		for mo := 0; mo < 256; mo++ {
			iv := []int{}
			open := false
			for d := 0; d < 256; d++ {
				date := ggfnt.Date{Year: uint16(y), Month: uint8(mo), Day: uint8(d)}
				v := date.IsValid()
				if v && mo > 12 {
					over++
				}
				if v && !open {
					iv = append(iv, d)
				} else if !v && open {
					iv = append(iv, d-1)
				}
				open = v
			}
			if open {
				iv = append(iv, 255)
			}
			if mo <= 12 {
				months = append(months, iv)
			}
		}
		key := fmt.Sprint(months, over)
		k, ok := seen[key]
		if !ok {
			k = len(pats) + 1
			seen[key] = k
			pats = append(pats, m{"months": months, "over": over})
		}
		idx = append(idx, k)
	}
	return m{"pats": pats, "idx": idx}
}

func dateOf(op drv.Op) ggfnt.Date {
	return ggfnt.Date{Year: uint16(op.Int("y")), Month: uint8(op.Int("m")), Day: uint8(op.Int("d"))}
}

func dateInts(d ggfnt.Date) []int { return []int{int(d.Year), int(d.Month), int(d.Day)} }

// opNow asks for the current date between two readings of the clock
func opNow(w *world, op drv.Op) any {
	before := today()
	d := ggfnt.CurrentDate()
	return m{"date": dateInts(d), "days": [][]int{before, today()}, "valid": d.IsValid(), "complete": d.IsComplete()}
}

func opDate(w *world, op drv.Op) any {
	d := dateOf(op)
	return m{"valid": d.IsValid(), "complete": d.IsComplete(), "hd": d.HasDay(), "hm": d.HasMonth(), "hy": d.HasYear(),
		"str": strings.Clone(d.String()), "after": dateInts(d), "month": d.MonthName()}
}
