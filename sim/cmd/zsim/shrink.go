package main

import (
	"fmt"
	"os"
	"time"

	"verif.local/sim/rt"
	"verif.local/sim/scen"
)

// shrink minimises the choice sequence of a failing run: fewer choices first, then smaller ones.
// Every trial is a complete simulated execution; a shorter sequence is kept when the same class
// of violation still occurs.
func shrink(in, out string, wall int) {
	confine()
	var s Spec
	if err := readJSON(in, &s); err != nil {
		fatal("%v", err)
	}
	end := time.Now().Add(time.Duration(wall) * time.Second)
	best := s.Choices
	st := scen.NewStats()
	trials := 0
	save := func() {
		o := s
		o.Choices = best
		o.Note = fmt.Sprintf("minimised from %d to %d choices in %d executions", len(s.Choices), len(best), trials)
		writeJSON(out, o)
	}
	try := func(c []uint32) bool {
		if time.Now().After(end) {
			return false
		}
		trials++
		res := scen.Run(s.Prop, rt.ReplaySrc(c), false, st)
		tidy()
		if res.Viol == nil || res.Viol.Class != s.Class {
			return false
		}
		// what was actually drawn, without trailing zeros (they are implied)
		rec := res.Rec
		for len(rec) > 0 && rec[len(rec)-1] == 0 {
			rec = rec[:len(rec)-1]
		}
		if less(rec, best) {
			best = append([]uint32{}, rec...)
			save()
			return true
		}
		return false
	}
	save()
	try(best)
	for pass := 0; pass < 20 && time.Now().Before(end); pass++ {
		before := append([]uint32{}, best...)
		// truncate
		for k := len(best) / 2; k >= 1; k /= 2 {
			for len(best) > k && try(best[:len(best)-k]) {
			}
		}
		// delete blocks
		for k := len(best) / 2; k >= 1; k /= 2 {
			for i := 0; i+k <= len(best); {
				c := append(append([]uint32{}, best[:i]...), best[i+k:]...)
				if !try(c) {
					i += k
				}
				if time.Now().After(end) {
					break
				}
			}
		}
		// zero blocks
		for k := 16; k >= 1; k /= 2 {
			for i := 0; i < len(best); i += k {
				c := append([]uint32{}, best...)
				z := true
				for j := i; j < i+k && j < len(c); j++ {
					if c[j] != 0 {
						z = false
					}
					c[j] = 0
				}
				if !z {
					try(c)
				}
			}
		}
		// lower values
		for i := 0; i < len(best); i++ {
			for i < len(best) && best[i] > 0 {
				c := append([]uint32{}, best...)
				c[i] /= 2
				if try(c) {
					continue
				}
				c = append([]uint32{}, best...)
				c[i]--
				if !try(c) {
					break
				}
			}
		}
		if !less(best, before) {
			break
		}
	}
	save()
	os.Exit(0)
}

// less orders choice sequences: shorter, then fewer non-zero, then smaller.
func less(a, b []uint32) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	na, nb := 0, 0
	var sa, sb uint64
	for i := range a {
		if a[i] != 0 {
			na++
		}
		if b[i] != 0 {
			nb++
		}
		sa += uint64(a[i])
		sb += uint64(b[i])
	}
	if na != nb {
		return na < nb
	}
	return sa < sb
}
