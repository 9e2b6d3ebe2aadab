package scen

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"

	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/types"

	"verif.local/sim/catalog"
	"verif.local/sim/ref"
	"verif.local/sim/rt"
)

func init() {
	Scenarios["C21"] = c21
}

// ---------------------------------------------------------------- C21

// keyedSSZ makes the component a factory plugs in for catalog.Cust: it stores its bytes XOR key.
var keyedSSZ func(key byte, h *ref.Hash) types.SSZ

var errFactory = errors.New("simulated factory error")

// unsupported types, alone or as parts of others
var unsupported = []reflect.Type{
	reflect.TypeOf(int(0)), reflect.TypeOf(""), reflect.TypeOf(float64(0)), reflect.TypeOf(map[string]int(nil)), reflect.TypeOf((chan int)(nil)),
	reflect.TypeOf((func())(nil)), reflect.TypeOf([]uint32(nil)), reflect.TypeOf([]catalog.OneVar(nil)), reflect.TypeOf([]byte(nil)), reflect.TypeOf(int64(0)), reflect.TypeOf([]bool(nil)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uintptr(0)), reflect.TypeOf(int8(0)), reflect.TypeOf(float32(0)), reflect.TypeOf(complex64(0)), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*interface{})(nil)).Elem(),
	reflect.TypeOf((*string)(nil)), reflect.TypeOf([3]string{}), reflect.TypeOf([2]uint{}), reflect.TypeOf([]string(nil)), reflect.TypeOf([][4]byte(nil)), reflect.TypeOf([]*uint64(nil)),
	reflect.TypeOf(catalog.List[string, catalog.L4](nil)), reflect.TypeOf(catalog.List[int32, catalog.L4](nil)), reflect.TypeOf(catalog.List[[]uint16, catalog.L4](nil)), reflect.TypeOf(catalog.List[map[uint8]bool, catalog.L4](nil)),
	reflect.TypeOf(shortBits{}), reflect.TypeOf(longBits{}), reflect.TypeOf([2]shortBits{}), reflect.TypeOf(noLimit(nil)), reflect.TypeOf(hugeBits{}),
	reflect.TypeOf(struct {
		A uint64
		B uint64 `ssz:"squash"`
	}{}), reflect.TypeOf(struct {
		A catalog.List[uint64, catalog.L4] `ssz:"squash"`
	}{}), reflect.TypeOf(struct {
		P *catalog.Fx `json:"p" ssz:"squash"`
	}{}), reflect.TypeOf(struct {
		P [2]catalog.Fx `ssz:"other,squash"`
	}{}), reflect.TypeOf(struct {
		A uint8
		B string `ssz:"omitempty"`
	}{}), reflect.TypeOf(struct {
		A string `json:"omit"`
	}{}), reflect.TypeOf(struct {
		A uint8
		catalog.Small
		In struct {
			B, C uint16
			D    []uint32
		}
	}{}),
}

type (
	shortBits [2]byte // too short for its bits
	longBits  [3]byte // too long
	hugeBits  [0]byte // much too short
	noLimit   []byte  // has a length in bits, but no limit
)

func (*shortBits) BitLen() uint64 { return 17 }
func (*longBits) BitLen() uint64  { return 16 }
func (*hugeBits) BitLen() uint64  { return 1<<64 - 3 }
func (*noLimit) BitLen() uint64   { return 16 }

// recursive types have no finite definition. Only the library's own factory is asked for them: a factory of the
// application decides itself where its recursion ends.
var recursive = []reflect.Type{
	reflect.TypeOf(recNode{}), reflect.TypeOf(recTree{}), reflect.TypeOf(recKids(nil)), reflect.TypeOf(recPtr(nil)), reflect.TypeOf(recA{}), reflect.TypeOf(recArr{}),
}

type (
	recNode struct {
		A    uint64
		Next *recNode
	}
	recKids []recTree
	recTree struct {
		V    uint16
		Kids recKids
	}
	recPtr *recPtr
	recA   struct {
		X uint8
		B *recB
	}
	recB struct {
		A recArr
	}
	recArr [2]*recA
	// not recursive as far as the format is concerned
	recOmit struct {
		A    uint64
		Next *recOmit `ssz:"omit"`
		B    uint16
	}
	recTwice struct {
		A, B *recOmit
		C    [2]recOmit
	}
)

func (*recKids) Limit() uint64 { return 4 }

// xorCust is v as the factory with the given key stores it.
func xorCust(t *ref.T, v *ref.V, key byte) *ref.V {
	g := t.Go
	for i := 0; i < t.Ptrs; i++ {
		g = g.Elem()
	}
	if g == catalog.CustType {
		o := v.Clone()
		for i := range o.B {
			o.B[i] ^= key
		}
		return o
	}
	switch t.K {
	case ref.Vec, ref.List:
		o := &ref.V{L: make([]*ref.V, len(v.L)), Nil: v.Nil}
		for i, x := range v.L {
			o.L[i] = xorCust(t.Elem, x, key)
		}
		return o
	case ref.Cont:
		o := &ref.V{L: make([]*ref.V, len(v.L)), Nil: v.Nil}
		for i, x := range v.L {
			o.L[i] = xorCust(t.F[i].T, x, key)
		}
		return o
	}
	return v
}

// recipe is one attempt at building a definition.
type recipe struct {
	r     *ref.T // nil: the type is unsupported
	g     reflect.Type
	key   byte // 0: the factory plugs nothing in
	own   bool // through a factory of the application
	fault int  // 0 none, 1 error, 2 panic, 3 never returns
	at    int  // call of the factory at which it happens
	yield bool
	inner *recipe // built by the factory at call at2
	at2   int
	v     *ref.V
	rc    RdCfg
	wc    WrCfg
}

func (p *recipe) String() string {
	s := "the library's factory"
	if p.own {
		s = fmt.Sprintf("a factory with key %d", p.key)
	}
	return fmt.Sprintf("%s by %s", p.g, s)
}

// built is a definition and what it is expected to be.
type built struct {
	p   *recipe
	td  *TD
	age int
}

// attempt builds a definition; fired tells whether the planned fault was met.
func (e *Env) attempt(p *recipe, h *ref.Hash, inner func(*recipe)) (td *TD, o Out, fired bool) {
	calls := 0
	var factory types.SSZFactoryFn
	factory = func(g reflect.Type) (types.SSZ, error) {
		call := calls
		calls++
		if p.yield {
			rt.Point()
		}
		if p.inner != nil && call == p.at2 {
			e.Probe("built inside a factory")
			inner(p.inner)
		}
		if p.fault != 0 && call == p.at {
			fired = true
			switch p.fault {
			case 1:
				e.Fault("factory reports an error")
				return nil, errFactory
			case 2:
				e.Fault("factory panics")
				panic(Injected{"factory"})
			case 3:
				e.Fault("factory stalls for ever")
				rt.StallForever()
			}
		}
		if p.key != 0 && g == catalog.CustType {
			return keyedSSZ(p.key, h), nil
		}
		return types.DefaultSSZFactory(factory, g)
	}
	td = &TD{R: p.r}
	o.Pan = e.try(func() {
		if p.own {
			td.Def, o.Err = factory(p.g)
		} else {
			td.Def, o.Err = types.SSZFactory(p.g)
		}
	})
	o.Ok = o.Pan == nil && o.Err == nil
	return
}

// useBuilt compares what a definition does with the model.
func (e *Env) useBuilt(b *built, h *ref.Hash, when string) {
	p, td := b.p, b.td
	want := xorCust(p.r, p.v, p.key)
	enc := p.r.Enc(want)
	obj := td.New(p.v)
	bad := func(what string, f string, a ...interface{}) {
		e.Fail("definition", "%s, used %s: %s", p, when, what+" "+fmt.Sprintf(f, a...))
	}
	if o := e.Size(obj, td); !o.Ok || o.N != uint64(len(enc)) {
		bad("size", "is %s, want %d", o, len(enc))
	}
	w := e.NewWr(p.wc)
	if o := e.Encode(w.W(), obj, td); !o.Ok || !bytes.Equal(w.Got(), enc) {
		bad("encoding", "of %s gives %s with bytes %s, want %s", p.v, o, hexs(w.Got()), hexs(enc))
	}
	if o := e.Root(htr.HashFn(h.F), obj, td); !o.Ok || o.Root != h.Root(p.r, want) {
		bad("root", "of %s is %s, want %x", p.v, o, h.Root(p.r, want))
	}
	r, _ := e.NewRd(enc, p.rc).R()
	if o := e.Dry(r, uint64(len(enc)), td); !o.Ok {
		bad("dry check", "of %s gives %s", hexs(enc), o)
	}
	dst := td.Zero()
	r, _ = e.NewRd(enc, p.rc).R()
	if o := e.Decode(r, uint64(len(enc)), dst, td); !o.Ok {
		bad("decoding", "of %s gives %s", hexs(enc), o)
	} else if got := td.Get(dst); !ref.Equal(got, p.v) {
		bad("decoding", "of %s gives %s, want %s", hexs(enc), got, p.v)
	}
	if _, ok := td.Def.(types.SignedSSZ); ok && td.Signed() && len(p.r.F) > 0 {
		if o := e.SRoot(htr.HashFn(h.F), obj, td); !o.Ok || o.Root != h.SigningRoot(p.r, want) {
			bad("signing root", "of %s is %s, want %x", p.v, o, h.SigningRoot(p.r, want))
		}
	}
}

func c21(e *Env) {
	nt := e.S.Pick(4, 2, 1) + 1
	if nt > 1 {
		e.Schedule()
	}
	budget := []int{60, 300}[e.S.Draw(2)]
	h := e.UseHash()
	// a few types that share parts
	var pool []reflect.Type
	for i, n := 0, e.S.Draw(3)+1; i < n; i++ {
		var g reflect.Type
		switch e.S.Pick(8, 8, 4, 6, 1) {
		case 4:
			g = []reflect.Type{reflect.TypeOf(recOmit{}), reflect.TypeOf(recTwice{})}[e.S.Draw(2)]
		case 0:
			g = catalog.DrawCust(e.S)
		case 1:
			g = catalog.CustTypes[e.S.Draw(len(catalog.CustTypes))]
		case 2:
			g = catalog.Shapes[e.S.Draw(4)]
		case 3:
			g = catalog.Draw(e.S)
		}
		pool = append(pool, g)
	}
	fresh := 0
	pick := func() reflect.Type {
		g := pool[e.S.Draw(len(pool))]
		switch e.S.Pick(6, 2, 1, 1, 1) {
		case 1:
			return reflect.StructOf([]reflect.StructField{{Name: "A", Type: g}, {Name: "B", Type: reflect.TypeOf(uint16(0))}})
		case 2:
			return reflect.ArrayOf(2, g)
		case 3:
			return reflect.PtrTo(g)
		case 4: // a type the process has not met
			if fresh < 2 {
				fresh++
				return reflect.StructOf([]reflect.StructField{{Name: fmt.Sprintf("N%x", e.S.Draw(1<<30)), Type: reflect.TypeOf(uint8(0))}, {Name: "A", Type: g}})
			}
		}
		return g
	}
	keys := 1
	if keyedSSZ != nil {
		keys = 3
	}
	draw := func() *recipe {
		p := &recipe{g: pick(), own: e.S.Draw(3) != 0, rc: e.RdCfg(), wc: e.WrCfg()}
		if p.own {
			p.key = []byte{0, 0x5a, 0x81}[e.S.Draw(keys)]
			p.yield = e.S.Draw(2) == 1
			if e.S.Draw(3) == 2 {
				p.fault, p.at = e.S.Pick(0, 3, 3, 1), e.S.Draw([]int{2, 6, 20}[e.S.Draw(3)])
			}
		}
		if e.S.Draw(6) == 5 { // unsupported
			u := unsupported[e.S.Draw(len(unsupported))]
			if e.S.Draw(4) == 3 {
				u = recursive[e.S.Draw(len(recursive))]
				p.own, p.key, p.fault = false, 0, 0
			}
			switch e.S.Draw(6) {
			case 4: // as long as it is left out, it does not matter
				p.g = reflect.StructOf([]reflect.StructField{{Name: "A", Type: p.g}, {Name: "U", Type: u, Tag: `ssz:"omit"`}, {Name: "B", Type: pick()}})
				p.r = ref.Of(p.g)
				p.v = p.r.Gen(e.S, budget)
				e.Probe("unsupported part left out")
				return p
			case 5:
				p.g = reflect.StructOf([]reflect.StructField{{Name: "A", Type: p.g}, {Name: "In", Tag: `ssz:"squash"`, Type: reflect.StructOf([]reflect.StructField{{Name: "B", Type: reflect.TypeOf(uint32(0))}, {Name: "U", Type: u}})}})
			case 0:
				p.g = u
			case 1:
				p.g = reflect.StructOf([]reflect.StructField{{Name: "A", Type: p.g}, {Name: "U", Type: u}, {Name: "B", Type: pick()}})
			case 2:
				p.g = reflect.StructOf([]reflect.StructField{{Name: "A", Type: p.g}, {Name: "U", Type: reflect.ArrayOf(2, u)}})
			case 3:
				p.g = reflect.PtrTo(reflect.StructOf([]reflect.StructField{{Name: "U", Type: u}, {Name: "A", Type: p.g}}))
			}
			return p
		}
		p.r = ref.Of(p.g)
		p.v = p.r.Gen(e.S, budget)
		return p
	}
	type step struct {
		p   *recipe
		use int // otherwise: use a definition built before
		gc  bool
	}
	progs := make([][]step, nt)
	for t := range progs {
		for i, n := 0, e.S.Draw(5)+2; i < n; i++ {
			s := step{use: e.S.Draw(1 << 10), gc: e.S.Draw(12) == 11}
			if e.S.Draw(4) != 3 {
				s.p = draw()
				if s.p.own && e.S.Draw(6) == 5 {
					s.p.inner, s.p.at2 = draw(), e.S.Draw(6)
					s.p.inner.fault = 0
				}
			}
			progs[t] = append(progs[t], s)
		}
	}
	if len(progs[0]) > 0 && progs[0][0].p != nil {
		e.Desc("%d tasks build definitions, first %s, planned fault %d", nt, progs[0][0].p, progs[0][0].p.fault)
	}
	var defs []*built
	var build func(p *recipe)
	build = func(p *recipe) {
		e.Sim.Logf("building %s", p)
		td, o, fired := e.attempt(p, h, build)
		e.Sim.Logf("built %s: %s", p, o)
		switch {
		case o.Pan != nil && !o.Pan.Inj:
			e.Fail("panic", "building %s panics: %s", p, o.Pan)
		case fired && o.Ok:
			e.Fail("swallowed", "building %s succeeds although its factory failed at call %d", p, p.at)
		case fired:
			e.Probe("attempt failed by its factory")
		case p.r == nil && o.Ok:
			e.Fail("unsupported", "building %s succeeds", p)
		case p.r == nil:
			e.Probe("unsupported type")
		case !o.Ok:
			e.Fail("refused", "building %s fails: %s", p, o)
		default:
			b := &built{p: p, td: td}
			defs = append(defs, b)
			e.useBuilt(b, h, "when it was built")
			if p.key != 0 {
				e.Probe("built with a factory of the application")
			}
		}
		if fired && p.r != nil { // once more, undisturbed
			q := *p
			q.fault, q.inner = 0, nil
			td, o, _ := e.attempt(&q, h, nil)
			if !o.Ok {
				e.Fail("refused", "building %s fails after an attempt its factory made fail: %s", p, o)
			}
			b := &built{p: &q, td: td}
			defs = append(defs, b)
			e.useBuilt(b, h, "after a failed attempt")
		}
	}
	var tasks []func()
	for t := range progs {
		prog := progs[t]
		tasks = append(tasks, func() {
			for _, s := range prog {
				if s.gc {
					collect()
				}
				if s.p != nil {
					build(s.p)
				} else if len(defs) > 0 {
					e.useBuilt(defs[s.use%len(defs)], h, "later")
				}
				rt.Between()
			}
		})
	}
	e.Par(tasks...)
	for _, b := range defs {
		e.useBuilt(b, h, "at the end")
	}
}
