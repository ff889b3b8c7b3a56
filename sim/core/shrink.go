package core

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"time"
)

func sameFailure(class, detail string, p *Plan) bool {
	if class != p.Class {
		return false
	}
	if class == "crash" {
		return strings.SplitN(detail, " in ", 2)[0] == strings.SplitN(p.Detail, " in ", 2)[0]
	}
	return true
}

// Shrink minimises a failing plan: fewer steps, smaller parameters, a simpler
// schedule, as long as it keeps failing with the same class.
func Shrink(self string, p *Plan, tmp string, workers int, budget time.Duration) (*Plan, int) {
	end := time.Now().Add(budget)
	best := p.Clone()
	tries := 0
	// try runs candidates in parallel and adopts the first (in order) that fails.
	try := func(cands []*Plan) bool {
		for len(cands) > 0 && time.Now().Before(end) {
			k := min(workers, len(cands))
			ok := make([]bool, k)
			var wg sync.WaitGroup
			for i := 0; i < k; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					class, detail, _, trouble, _ := runOne(self, cands[i], tmp, fmt.Sprintf("c%d.json", i))
					ok[i] = trouble == "" && sameFailure(class, detail, p)
				}(i)
			}
			wg.Wait()
			tries += k
			for i := 0; i < k; i++ {
				if ok[i] {
					best = cands[i]
					return true
				}
			}
			cands = cands[k:]
		}
		return false
	}
	simVariant := func(f func(o *runtime.SimOptions) bool) *Plan {
		c := best.Clone()
		if !f(&c.Sim) {
			return nil
		}
		return c
	}
	nonNil := func(ps ...*Plan) []*Plan {
		var r []*Plan
		for _, q := range ps {
			if q != nil {
				r = append(r, q)
			}
		}
		return r
	}
	for round := 0; round < 6 && time.Now().Before(end); round++ {
		changed := false
		// Schedule.
		if try(nonNil(
			simVariant(func(o *runtime.SimOptions) bool {
				if o.Strategy == 1 && o.YieldP == 0 && o.HotP == 0 && o.MapP == 0 && o.StallP == 0 {
					return false
				}
				*o = runtime.SimOptions{Seed: o.Seed, Strategy: 1}
				return true
			}),
			simVariant(func(o *runtime.SimOptions) bool { c := o.StallP != 0; o.StallP = 0; return c }),
			simVariant(func(o *runtime.SimOptions) bool { c := o.MapP != 0; o.MapP = 0; return c }),
			simVariant(func(o *runtime.SimOptions) bool {
				c := o.YieldP != 0 || o.HotP != 0
				o.YieldP, o.HotP, o.HotSites = 0, 0, 0
				return c
			}),
			simVariant(func(o *runtime.SimOptions) bool { c := o.Strategy != 1; o.Strategy = 1; return c }),
		)) {
			changed = true
		}
		// Steps: drop chunks of decreasing size.
		for size := len(best.Ops) / 2; size >= 1 && time.Now().Before(end); {
			var cands []*Plan
			for i := 0; i+size <= len(best.Ops); i += size {
				c := best.Clone()
				c.Ops = append(append([]Op(nil), best.Ops[:i]...), best.Ops[i+size:]...)
				cands = append(cands, c)
			}
			if try(cands) {
				changed = true
				if size > len(best.Ops) {
					size = len(best.Ops)
				}
				continue
			}
			size /= 2
		}
		// Parameters.
		if prop := Props[p.Prop]; prop != nil {
			for _, k := range SortedKeys(best.P) {
				floor, ok := prop.Floors[k]
				if !ok {
					continue
				}
				for best.P[k] > floor && time.Now().Before(end) {
					v := best.P[k]
					var cands []*Plan
					for _, nv := range []int64{floor, (floor + v) / 2, v - 1} {
						if nv < v && nv >= floor {
							c := best.Clone()
							c.P[k] = nv
							cands = append(cands, c)
						}
					}
					if !try(cands) {
						break
					}
					changed = true
				}
			}
		}
		// Window of forced yields.
		if best.Sim.YieldP != 0 || best.Sim.HotP != 0 || best.Sim.MapP != 0 {
			lo, hi := best.Sim.YieldFrom, best.Sim.YieldTo
			if hi == 0 {
				hi = 4096
			}
			for i := 0; i < 14 && hi-lo > 1 && time.Now().Before(end); i++ {
				mid := (lo + hi) / 2
				a, b := best.Clone(), best.Clone()
				a.Sim.YieldFrom, a.Sim.YieldTo = lo, mid
				b.Sim.YieldFrom, b.Sim.YieldTo = mid, hi
				if !try([]*Plan{a, b}) {
					break
				}
				changed = true
				lo, hi = best.Sim.YieldFrom, best.Sim.YieldTo
			}
		}
		if !changed {
			break
		}
	}
	return best, tries
}
