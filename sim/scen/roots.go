package scen

import (
	"fmt"
	"reflect"

	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/merkle"

	"verif.local/sim/ref"
	"verif.local/sim/rt"
)

func init() {
	Scenarios["C08"] = c08
}

// party is one holder of a value, whose history spans the phases of a run.
type party struct {
	td  *TD
	v   *ref.V
	obj reflect.Value
}

func (e *Env) checkRoot(td *TD, v *ref.V, obj reflect.Value, h *ref.Hash, how string) {
	o := e.Root(e.Hasher(h), obj, td)
	if o.Pan != nil {
		e.Fail("panic", "root of %s (%s) panics: %s", td.R, how, o.Pan)
	}
	if want := h.Root(td.R, v); o.Root != want {
		e.Fail("root", "%s with value %s has root %x, the hash-tree-root under %s is %x (%s)", td.R, v, o.Root, h.Name, want, how)
	}
}

func (e *Env) checkSRoot(td *TD, v *ref.V, obj reflect.Value, h *ref.Hash, how string) {
	if !td.Signed() {
		return
	}
	o := e.SRoot(e.Hasher(h), obj, td)
	if o.Pan != nil {
		e.Fail("panic", "signing root of %s (%s) panics: %s", td.R, how, o.Pan)
	}
	if want := h.SigningRoot(td.R, v); o.Root != want {
		e.Fail("signing root", "%s with value %s has signing root %x, it is %x under %s (%s)", td.R, v, o.Root, want, h.Name, how)
	}
}

type c08step struct {
	kind  int // 0 root, 1 signing root, 2 modify in place, 3 transfer, 4 aborted root, 5 merkleize, 6 proof, 7 failed decode elsewhere
	nv    *ref.V
	rc    RdCfg
	wc    WrCfg
	at    int
	stall bool
	cnt   uint64
	lim   uint64
	idx   uint64
	salt  uint64
	over  bool // more leaves than the limit, or a leaf beyond it
	stay  bool
}

func (e *Env) leafCounts() (cnt, lim, idx uint64) {
	cnt = uint64(e.S.Draw([]int{2, 6, 18, 40, 140, 600}[e.S.Draw(6)]))
	switch e.S.Pick(4, 3, 2, 2) {
	case 0:
		lim = cnt + uint64(e.S.Draw(20))
	case 1:
		lim = uint64(1)<<uint(e.S.Draw(11)) + uint64(e.S.Draw(3)) - 1
	case 2:
		lim = cnt
	case 3:
		lim = []uint64{1 << 32, 1<<32 + 1, 1 << 40, 1<<40 - 1, 1 << 62, 1<<62 + 1, 1 << 63, 1<<63 + 1, ^uint64(0)}[e.S.Draw(9)]
	}
	if lim < cnt {
		lim = cnt
	}
	if lim == 0 {
		return
	}
	switch e.S.Pick(3, 2, 2, 1, 1) {
	case 0:
		if cnt > 0 {
			idx = uint64(e.S.Draw(int(cnt)))
		}
	case 1: // around the last leaf
		idx = cnt + uint64(e.S.Draw(3))
		if idx > 0 {
			idx--
		}
	case 2:
		if lim < 1<<30 {
			idx = uint64(e.S.Draw(int(lim)))
		} else {
			idx = uint64(1)<<uint(e.S.Draw(64)) + uint64(e.S.Draw(3)) - 1
		}
	case 3:
		idx = lim - 1
	case 4:
		idx = uint64(1) << uint(e.S.Draw(10))
	}
	if idx >= lim {
		idx = lim - 1
	}
	return
}

func c08(e *Env) {
	if e.isJumbo() {
		jumbo(e, "C08")
		return
	}
	e.Schedule()
	budget := e.Budget()
	np := e.S.Draw(3) + 1
	if np > 1 && budget > 3000 {
		budget = 3000
	}
	if np > 1 && e.Sim.StmtGap > 0 && e.Sim.StmtGap < 100 && budget > 400 {
		budget = 400
	}
	tds := []*TD{e.Type()}
	if np > 1 && e.S.Draw(2) == 1 {
		tds = append(tds, e.Type())
	}
	ps := make([]*party, np)
	for i := range ps {
		td := tds[e.S.Draw(len(tds))]
		ps[i] = &party{td: td, v: td.R.Gen(e.S, budget)}
		ps[i].obj = td.New(ps[i].v)
	}
	phases := e.S.Draw(3) + 1
	for ph := 0; ph < phases; ph++ {
		h := e.UseHash()
		if ph > 0 {
			e.Probe("hash function switched")
		}
		var tasks []func()
		for pi, p := range ps {
			p := p
			var prog []c08step
			v := p.v
			for i, n := 0, e.S.Draw(4)+1; i < n; i++ {
				s := c08step{kind: e.S.Pick(8, 3, 4, 3, 2, 2, 3, 1)}
				switch s.kind {
				case 2:
					v = p.td.R.Mutate(e.S, v, budget)
					s.nv = v
				case 3:
					s.rc, s.wc = e.RdCfg(), e.WrCfg()
					s.stay = e.S.Draw(2) == 1
				case 4:
					s.at = e.S.Draw([]int{2, 8, 40, 200}[e.S.Draw(4)])
				case 5, 6:
					s.cnt, s.lim, s.idx = e.leafCounts()
					s.salt = uint64(e.S.Draw(1000))
					s.over = e.S.Draw(10) == 9
				case 7:
					s.nv = p.td.R.Gen(e.S, budget)
				}
				prog = append(prog, s)
			}
			e.Desc("phase %d (%s) party %d: %s, %d steps", ph, h.Name, pi, p.td.R, len(prog))
			tasks = append(tasks, func() {
				for i, s := range prog {
					how := fmt.Sprintf("phase %d, step %d", ph, i)
					e.c08step(p, s, h, how)
					rt.Between()
				}
				e.checkRoot(p.td, p.v, p.obj, h, fmt.Sprintf("end of phase %d", ph))
			})
		}
		if np == 1 {
			tasks[0]()
		} else {
			e.Par(tasks...)
		}
	}
}

func (e *Env) c08step(p *party, s c08step, h *ref.Hash, how string) {
	td := p.td
	switch s.kind {
	case 0:
		e.checkRoot(td, p.v, p.obj, h, how)
	case 1:
		e.checkSRoot(td, p.v, p.obj, h, how)
	case 2:
		td.R.Set(p.obj.Elem(), s.nv, true)
		p.v = s.nv
		e.checkRoot(td, p.v, p.obj, h, how+", after a modification in place")
	case 3:
		w := e.NewWr(s.wc)
		if o := e.Encode(w.W(), p.obj, td); !o.Ok {
			e.Fail("transfer", "encoding %s for a transfer fails: %s", td.R, o)
		}
		r, _ := e.NewRd(w.Got(), s.rc).R()
		dst := td.Zero()
		if o := e.Decode(r, uint64(len(w.Got())), dst, td); !o.Ok {
			e.Fail("transfer", "decoding the transferred %s fails: %s", td.R, o)
		}
		e.checkRoot(td, p.v, dst, h, how+", at the receiver")
		e.checkSRoot(td, p.v, dst, h, how+", at the receiver")
		if s.stay {
			p.obj = dst
		}
	case 4:
		x := e.NewHs(h)
		x.Panic = s.at
		e.Root(e.Either(x), p.obj, td)
		e.checkRoot(td, p.v, p.obj, h, how+", after an aborted computation")
	case 7: // a decode into the value that fails and leaves it partially overwritten; then a good one
		b := td.R.Enc(s.nv)
		if len(b) == 0 {
			return
		}
		c := Plain()
		c.Cut, c.CutErr = len(b)/2, errReset
		r, _ := e.NewRd(b, c).R()
		e.Decode(r, uint64(len(b)), p.obj, td)
		r, _ = e.NewRd(b, Plain()).R()
		if o := e.Decode(r, uint64(len(b)), p.obj, td); !o.Ok {
			e.Fail("transfer", "decoding %s after an interrupted decode fails: %s", td.R, o)
		}
		p.v = s.nv
		e.checkRoot(td, p.v, p.obj, h, how+", after an interrupted and a repeated decode")
	case 5, 6:
		leaf := func(i uint64) []byte { return leafOf(i + s.salt) }
		if s.over {
			e.refused(s, h, leaf)
			return
		}
		chunks := make([][32]byte, s.cnt)
		for i := range chunks {
			copy(chunks[i][:], leaf(uint64(i)))
		}
		want := h.Merkleize(chunks, s.lim)
		if s.kind == 5 || s.lim == 0 {
			var got [32]byte
			pan := e.try(func() { got = merkle.Merkleize(e.Hasher(h), s.cnt, s.lim, leaf) })
			if pan != nil {
				e.Fail("panic", "merkleizing %d leaves, limit %d panics: %s", s.cnt, s.lim, pan)
			}
			if got != want {
				e.Fail("merkleize", "%d leaves, limit %d: root %x, want %x under %s", s.cnt, s.lim, got, want, h.Name)
			}
			// the length of a list of that many elements
			e.try(func() { got = htr.HashFn(h.F).MixIn(want, s.lim) })
			if mixed := h.MixIn(want, s.lim); got != mixed {
				e.Fail("mix-in", "length %d mixed into a root gives %x, want %x under %s", s.lim, got, mixed, h.Name)
			}
			return
		}
		var br [][32]byte
		pan := e.try(func() { br = merkle.ConstructProof(e.Hasher(h), s.cnt, s.lim, leaf, s.idx) })
		if pan != nil {
			e.Fail("panic", "proof of leaf %d of %d, limit %d panics: %s", s.idx, s.cnt, s.lim, pan)
		}
		if len(br) != ref.Depth(s.lim) {
			e.Fail("proof", "the branch of leaf %d of %d, limit %d has %d nodes, the tree is %d deep", s.idx, s.cnt, s.lim, len(br), ref.Depth(s.lim))
		}
		var lf [32]byte
		if s.idx < s.cnt {
			lf = chunks[s.idx]
		}
		if got := h.BranchRoot(lf, s.idx, br); got != want {
			e.Fail("proof", "the branch of leaf %d of %d, limit %d leads to %x, the root is %x under %s", s.idx, s.cnt, s.lim, got, want, h.Name)
		}
		e.Probe("proof verified")
	}
}

// refused asks for a tree of more leaves than the limit, or for the proof of a leaf beyond the limit.
func (e *Env) refused(s c08step, h *ref.Hash, leaf func(i uint64) []byte) {
	cnt, lim, idx := s.cnt, s.lim, s.idx
	if s.salt%3 > 0 {
		lim = cnt
	}
	more := []uint64{1, 2, 3, 8}[s.salt%4] // beyond the limit
	if s.kind == 6 && s.salt%2 == 0 && lim+more > lim {
		// all leaves fit, the one to prove does not
		idx = lim + more - 1
		if cnt > lim {
			cnt = lim
		}
	} else {
		if lim > 1<<20 {
			lim = cnt
		}
		cnt = lim + more
		if idx >= lim {
			idx = 0
		}
	}
	var pan *Pan
	if s.kind == 5 {
		pan = e.try(func() { merkle.Merkleize(e.Hasher(h), cnt, lim, leaf) })
	} else {
		pan = e.try(func() { merkle.ConstructProof(e.Hasher(h), cnt, lim, leaf, idx) })
	}
	if pan == nil {
		e.Fail("not refused", "%d leaves, limit %d, leaf %d: the library answers", cnt, lim, idx)
	}
	e.Probe("beyond the limit refused")
}
