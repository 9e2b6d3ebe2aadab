package scen

import (
	"verif.local/sim/ref"
	"verif.local/sim/rt"
)

func init() {
	Scenarios["C20"] = c20
}

// ---------------------------------------------------------------- C20

// nested is an operation whose callbacks start further operations.
type nested struct {
	o     op
	at    []int // calls of its callbacks at which they do
	inner [][]*nested
	runs  []Out
}

// genNested draws an operation with operations inside, up to the given depth.
func (e *Env) genNested(w *world, vs []*ref.V, budget, depth int) *nested {
	o := e.genOp(w, vs, budget)
	if o.hm == 0 && (o.kind == opRoot || o.kind == opSRoot || o.kind == opMerkle || o.kind == opProof) {
		o.hm = []int{1, 3}[e.S.Draw(2)]
	}
	x := &nested{o: o}
	if depth == 0 {
		return x
	}
	for i, n := 0, e.S.Pick(3, 4, 1); i < n || i == 0 && depth == 3; i++ {
		x.at = append(x.at, e.S.Draw([]int{1, 3, 8, 40}[e.S.Draw(4)]))
		var in []*nested
		for j, m := 0, e.S.Draw(2)+1; j < m; j++ {
			y := e.genNested(w, vs, budget/2, depth-1)
			if e.S.Draw(3) == 2 { // on what the outer operation works on
				y.o.vi = o.vi
				if y.o.ti != o.ti {
					y.o.kind = []opKind{opEncode, opRoot, opSize}[e.S.Draw(3)]
					y.o.rc, y.o.wc, y.o.hm = Plain(), HealthyW(), 1
				}
				y.o.ti = o.ti
			}
			in = append(in, y)
		}
		x.inner = append(x.inner, in)
	}
	return x
}

// run executes the operation; its callbacks start what is inside.
func (x *nested) run(e *Env, w *world, level int) {
	o := x.o
	if len(x.at) > 0 {
		calls, busy := 0, false
		o.hook = func() {
			call := calls
			calls++
			if busy { // what is inside has callbacks of its own
				return
			}
			for i, at := range x.at {
				if at == call {
					busy = true
					e.Probe([]string{"", "operation inside an operation", "operation at the second level", "operation at the third level"}[level+1])
					e.Sim.Logf("callback %d of %s starts %d operations", call, o, len(x.inner[i]))
					for _, y := range x.inner[i] {
						y.run(e, w, level+1)
					}
					e.Sim.Logf("callback %d of %s goes on", call, o)
					busy = false
				}
			}
		}
	}
	x.runs = append(x.runs, e.exec(w, o))
}

func (x *nested) judge(e *Env, w *world, vs []*ref.V) {
	if len(x.runs) > 0 {
		solo := e.exec(e.alone(w, vs), x.o)
		for _, r := range x.runs {
			if !Same(r, solo) {
				e.Fail("interference", "%s (%s), nested in another operation or with others inside: %s, alone %s", x.o, w.tds[x.o.ti].R, r, solo)
			}
		}
	}
	for _, in := range x.inner {
		for _, y := range in {
			y.judge(e, w, vs)
		}
	}
}

func c20(e *Env) {
	nt := e.S.Pick(4, 2, 1) + 1
	if nt > 1 {
		e.Schedule()
	}
	budget := []int{60, 200, 1000, 4000, 20000}[e.S.Pick(60, 30, 12, 6, 2)]
	w, vs := e.genWorld(budget)
	progs := make([][]*nested, nt)
	for t := range progs {
		for i, n := 0, e.S.Draw(2)+1; i < n; i++ {
			progs[t] = append(progs[t], e.genNested(w, vs, budget, 3))
		}
	}
	e.Desc("%d tasks on %s, %d values, first %s with operations inside at calls %v", nt, w.tds[0].R, len(vs), progs[0][0].o, progs[0][0].at)
	var tasks []func()
	for t := range progs {
		prog := progs[t]
		tasks = append(tasks, func() {
			for _, x := range prog {
				x.run(e, w, 0)
				rt.Between()
			}
		})
	}
	if nt == 1 {
		tasks[0]()
	} else {
		e.Par(tasks...)
	}
	e.checkShared(w, vs, "after nested operations")
	for _, prog := range progs {
		for _, x := range prog {
			x.judge(e, w, vs)
		}
	}
}
