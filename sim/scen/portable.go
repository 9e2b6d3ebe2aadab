package scen

import (
	"bytes"
	"reflect"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/htr"

	"verif.local/sim/catalog"
	"verif.local/sim/ref"
	"verif.local/sim/rt"
)

func init() {
	Scenarios["C13"] = c13
}

// bigEndian is v as the memory of a big-endian host reads on this one: the elements of basic
// series of more than one byte are reversed.
func bigEndian(t *ref.T, v *ref.V) *ref.V {
	switch t.K {
	case ref.BasicVec, ref.BasicList:
		if t.Size == 1 {
			return v
		}
		o := &ref.V{B: make([]byte, len(v.B))}
		s := int(t.Size)
		for i := 0; i < len(v.B); i += s {
			for j := 0; j < s; j++ {
				o.B[i+j] = v.B[i+s-1-j]
			}
		}
		return o
	case ref.Vec, ref.List:
		o := &ref.V{L: make([]*ref.V, len(v.L))}
		for i, x := range v.L {
			o.L[i] = bigEndian(t.Elem, x)
		}
		return o
	case ref.Cont:
		o := &ref.V{L: make([]*ref.V, len(v.L))}
		for i, x := range v.L {
			o.L[i] = bigEndian(t.F[i].T, x)
		}
		return o
	}
	return v
}

// flipRoots tells whether flipping the host's endianness changes the course of root computations
// at all; a library that fixes its choice at start-up cannot be flipped, and its roots are skipped.
var flipRoots struct{ done, yes bool }

func rootsFlip(e *Env) bool {
	if flipRoots.done {
		return flipRoots.yes
	}
	flipRoots.done = true
	if rt.Coarse || len(rt.Hits) == 0 {
		flipRoots.yes = true
		return true
	}
	saved := append([]bool(nil), rt.Hits...)
	trace := func(le bool) []bool {
		for i := range rt.Hits {
			rt.Hits[i] = false
		}
		setLittleEndian(le)
		for _, g := range []reflect.Type{reflect.TypeOf([5]uint64{}), reflect.TypeOf([9]uint16{}), reflect.TypeOf(catalog.List[uint32, catalog.L17]{})} {
			td := e.TypeOf(g)
			obj := reflect.New(g)
			e.try(func() { zssz.HashTreeRoot(htr.HashFn(hashes[0].F), obj.Interface(), td.Def) })
		}
		return append([]bool(nil), rt.Hits...)
	}
	a, b := trace(true), trace(false)
	setLittleEndian(true)
	copy(rt.Hits, saved)
	for i := range a {
		if a[i] != b[i] {
			flipRoots.yes = true
		}
	}
	return flipRoots.yes
}

type c13op struct {
	kind  int // 0 encode, 1 decode, 2 dry check, 3 fuzz decode, 4 root, 5 signing root, 6 size
	v     *ref.V
	w     WrCfg
	b     []byte
	n     uint64
	c, c2 RdCfg
	reuse bool
}

func (e *Env) c13do(td *TD, op c13op, h *ref.Hash, portable bool, dst *reflect.Value) (o Out, got []byte) {
	c := op.c
	if portable {
		c = op.c2
	}
	switch op.kind {
	case 0:
		w := e.NewWr(op.w)
		o = e.Encode(w.W(), td.New(op.v), td)
		got = w.Got()
	case 1, 3:
		if !op.reuse || !dst.IsValid() {
			*dst = td.Zero()
		}
		r, _ := e.NewRd(op.b, c).R()
		if op.kind == 1 {
			o = e.Decode(r, op.n, *dst, td)
		} else {
			o = e.Fuzz(r, op.n, *dst, td)
		}
		if o.Ok {
			o.V = td.Get(*dst)
		}
	case 2:
		r, _ := e.NewRd(op.b, c).R()
		o = e.Dry(r, op.n, td)
	case 4, 5:
		v := op.v
		if portable {
			v = bigEndian(td.R, v)
		}
		if op.kind == 4 {
			o = e.Root(e.NewHs(h), td.New(v), td)
		} else if td.Signed() {
			o = e.SRoot(e.NewHs(h), td.New(v), td)
		}
	case 6:
		o = e.Size(td.New(op.v), td)
	}
	return
}

func c13(e *Env) {
	e.isJumbo()
	if !haveEndian {
		e.Probe("no endianness switch in this library")
		return
	}
	doRoots := rootsFlip(e)
	if !doRoots {
		e.Probe("roots cannot be flipped")
	}
	budget := e.Budget()
	nt := 1
	par := e.S.Draw(4) == 3 && !e.big
	if par {
		nt = e.S.Draw(2) + 2
		e.Schedule()
		if budget > 3000 {
			budget = 3000
		}
	}
	h := e.UseHash()
	type job struct {
		raw, port *TD
		ops       []c13op
		want      []Out
		wantB     [][]byte
	}
	var jobs []*job
	var td *TD
	for k := 0; k < nt; k++ {
		if td == nil || e.S.Draw(2) == 1 {
			if !e.big && e.S.Draw(2) == 0 {
				td = e.TypeOf(catalog.DrawWide(e.S))
			} else {
				td = e.Type()
			}
		}
		j := &job{raw: td}
		for i, n := 0, e.S.Draw(4)+1; i < n; i++ {
			op := c13op{kind: e.S.Pick(4, 5, 2, 4, 5, 1, 1)}
			if !doRoots && (op.kind == 4 || op.kind == 5) {
				op.kind = 0
			}
			op.c = e.RdCfg()
			switch op.kind {
			case 0:
				op.v = e.Gen(td, budget)
				op.w = e.WrCfg()
				if e.S.Draw(3) == 2 {
					op.w.Fail = e.cutPoint(td, op.v, td.R.Enc(op.v))
					op.w.Style = e.S.Draw(4)
					op.w.Err = []error{errDisk, errFull}[e.S.Draw(2)]
				}
			case 1, 2:
				op.reuse = e.S.Draw(2) == 1
				if e.S.Draw(2) == 0 {
					v := e.Gen(td, budget)
					op.b = td.R.Enc(v)
					op.n = uint64(len(op.b))
				} else {
					op.b, op.n = e.damaged(td, budget)
				}
				if e.S.Draw(3) == 2 {
					op.c.Cut, op.c.CutErr = e.S.Draw(len(op.b)+1), e.cutErr()
				}
			case 3:
				op.reuse = e.S.Draw(2) == 1
				op.b = e.fuzzInput(td, budget)
				op.n = uint64(len(op.b))
				if e.S.Draw(4) == 3 {
					op.c.Cut, op.c.CutErr = e.S.Draw(len(op.b)+1), e.cutErr()
				}
			default:
				op.v = e.Gen(td, budget)
			}
			op.c2 = op.c
			if e.S.Draw(2) == 1 { // the same bytes and failure, fragmented in another way
				x := e.RdCfg()
				x.Cut, x.CutErr = op.c.Cut, op.c.CutErr
				op.c2 = x
			}
			j.ops = append(j.ops, op)
		}
		e.Desc("host %d: %s, %d operations", k, td.R, len(j.ops))
		jobs = append(jobs, j)
	}
	// the little-endian host
	for _, j := range jobs {
		var dst reflect.Value
		for _, op := range j.ops {
			o, b := e.c13do(j.raw, op, h, false, &dst)
			j.want, j.wantB = append(j.want, o), append(j.wantB, b)
		}
	}
	// the portable host: its own definitions, its own memory
	setLittleEndian(false)
	e.Quirk("host endianness flipped")
	for _, j := range jobs {
		j.port = e.Fresh(j.raw)
	}
	var tasks []func()
	for _, j := range jobs {
		j := j
		tasks = append(tasks, func() {
			var dst reflect.Value
			for i, op := range j.ops {
				o, b := e.c13do(j.port, op, h, true, &dst)
				e.c13same(j.raw, op, j.want[i], o, j.wantB[i], b)
				rt.Between()
			}
		})
	}
	if par {
		e.Par(tasks...)
	} else {
		tasks[0]()
	}
}

func (e *Env) c13same(td *TD, op c13op, a, b Out, ab, bb []byte) {
	name := []string{"encoding", "decoding", "dry-checking", "fuzz-decoding", "root of", "signing root of", "size of"}[op.kind]
	if b.Pan != nil && a.Pan == nil {
		e.Fail("panic", "%s %s panics on the portable path only: %s (otherwise: %s)", name, td.R, b.Pan, a)
	}
	if a.Pan != nil {
		return // judged by other properties
	}
	if a.Ok != b.Ok {
		e.Fail("verdict", "%s %s: raw-memory path says %s, portable path says %s; input %s announced %d (%s / %s)", name, td.R, a, b, hexs(op.b), op.n, op.c, op.c2)
	}
	switch op.kind {
	case 0:
		if a.Ok && (!bytes.Equal(ab, bb) || a.N != b.N) {
			e.Fail("bytes", "%s %s: raw-memory path writes %s (reports %d), portable path writes %s (reports %d)", name, td.R, hexs(ab), a.N, hexs(bb), b.N)
		}
		if !a.Ok {
			s, l := ab, bb
			if len(l) < len(s) {
				s, l = l, s
			}
			if !bytes.HasPrefix(l, s) || b.N != uint64(len(bb)) {
				e.Fail("bytes", "%s %s into a failing sink: raw-memory path writes %s, portable path writes %s (reports %d)", name, td.R, hexs(ab), hexs(bb), b.N)
			}
		}
	case 1, 3:
		if a.Ok && !ref.Equal(a.V, b.V) {
			e.Fail("value", "%s %s: raw-memory path gives %s, portable path gives %s; input %s announced %d", name, td.R, a.V, b.V, hexs(op.b), op.n)
		}
		if a.Ok && a.N != b.N {
			e.Fail("count", "%s %s: raw-memory path reports %d bytes, portable path %d; input %s", name, td.R, a.N, b.N, hexs(op.b))
		}
	case 4, 5:
		if a.Root != b.Root {
			e.Fail("root", "%s %s with value %s: %x on the raw-memory path, %x on the portable path", name, td.R, op.v, a.Root, b.Root)
		}
	case 6:
		if a.N != b.N {
			e.Fail("size", "%s %s with value %s: %d on the raw-memory path, %d on the portable path", name, td.R, op.v, a.N, b.N)
		}
	}
}
