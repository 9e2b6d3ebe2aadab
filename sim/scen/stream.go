package scen

import (
	"bytes"
	"encoding/binary"
	"io"
	"reflect"

	"verif.local/sim/ref"
	"verif.local/sim/rt"
)

func init() {
	Scenarios["C01"] = c01
	Scenarios["C02"] = c02
	Scenarios["C03"] = c03
	Scenarios["C04"] = c04
	Scenarios["C05"] = c05
}

// ---------------------------------------------------------------- C01

type frame struct {
	td *TD
	v  *ref.V
}

// checkRecv judges one received frame.
func (e *Env) checkRecv(f frame, o Out, got *ref.V, dry bool, used, want int, how string) {
	what := "decode"
	if dry {
		what = "dry check"
	}
	if o.Pan != nil {
		e.Fail("panic", "%s of a valid frame of %s panics: %s (%s)", what, f.td.R, o.Pan, how)
	}
	if !o.Ok {
		e.Fail("refused", "%s of a valid frame of %s (%d bytes) fails: %v (%s)", what, f.td.R, want, o.Err, how)
	}
	if used != want {
		e.Fail("consumed", "%s of a frame of %s consumed %d bytes, the frame has %d (%s)", what, f.td.R, used, want, how)
	}
	if !dry && !ref.Equal(got, f.v) {
		e.Fail("value", "%s: sent %s, received %s (%s)", f.td.R, f.v, got, how)
	}
}

func c01(e *Env) {
	if e.isJumbo() {
		jumbo(e, "C01")
		return
	}
	if e.S.Draw(3) == 2 {
		c01conn(e)
		return
	}
	// frames written back to back into one stream, then read from one reader
	budget := e.Budget()
	tds := []*TD{e.Type()}
	if e.S.Draw(3) == 2 {
		tds = append(tds, e.Type())
	}
	nf := e.S.Draw(3) + 1
	var fs []frame
	sink := e.NewWr(e.WrCfg())
	var lens []int
	for i := 0; i < nf; i++ {
		td := tds[e.S.Draw(len(tds))]
		v := e.Gen(td, budget)
		at := len(sink.Got())
		o := e.Encode(sink.W(), td.New(v), td)
		if !o.Ok {
			e.Fail("encode", "encoding a valid %s fails: %s", td.R, o)
		}
		lens = append(lens, len(sink.Got())-at)
		fs = append(fs, frame{td, v})
		e.Desc("frame %d: %s, %d bytes", i, td.R, lens[i])
	}
	data := sink.Got()
	if e.S.Draw(3) == 2 {
		data = append(data, ref.Content(e.S, 40, false)...) // what follows on the stream
	}
	c := e.RdCfg()
	if e.S.Draw(8) == 7 {
		e.Schedule()
	}
	rd := e.NewRd(data, c)
	r, pos := rd.R()
	e.Desc("read %s", c)
	at := 0
	used := map[*TD]reflect.Value{}
	for i, f := range fs {
		dry := e.S.Draw(5) == 4
		var o Out
		var got *ref.V
		if dry {
			o = e.Dry(r, uint64(lens[i]), f.td)
		} else {
			dst, ok := used[f.td]
			if !ok || e.S.Draw(2) == 0 {
				dst = f.td.Zero()
			}
			used[f.td] = dst
			o = e.Decode(r, uint64(lens[i]), dst, f.td)
			if o.Ok {
				got = f.td.Get(dst)
			}
		}
		e.checkRecv(f, o, got, dry, pos()-at, lens[i], c.String())
		at += lens[i]
	}
}

func c01conn(e *Env) {
	e.Schedule()
	budget := e.Budget()
	if budget > 3000 {
		budget = 3000
	}
	tds := []*TD{e.Type()}
	if e.S.Draw(3) == 2 {
		tds = append(tds, e.Type())
	}
	var tasks []func()
	nc := e.S.Draw(3) + 1
	for k := 0; k < nc; k++ {
		conn := e.NewConn()
		var fs []frame
		for i, n := 0, e.S.Draw(4)+1; i < n; i++ {
			td := tds[e.S.Draw(len(tds))]
			fs = append(fs, frame{td, e.Gen(td, budget)})
		}
		inPlace := e.S.Draw(2) == 1
		dryMask := e.S.Draw(16)
		if e.S.Draw(2) == 0 {
			dryMask = 0
		}
		wrap := e.S.Pick(4, 1, 1, 1)
		e.Desc("connection %d: %d frames, first %s; window %d segments<=%d latency %d", k, len(fs), fs[0].td.R, conn.window, conn.maxSeg, conn.latency)
		tasks = append(tasks, func() { // sender
			objs := map[*TD]reflect.Value{}
			for _, f := range fs {
				obj, ok := objs[f.td]
				if ok && inPlace {
					f.td.R.Set(obj.Elem(), f.v, true)
				} else {
					obj = f.td.New(f.v)
					objs[f.td] = obj
				}
				sz := e.Size(obj, f.td)
				var hdr [8]byte
				binary.LittleEndian.PutUint64(hdr[:], sz.N)
				conn.Write(hdr[:])
				o := e.Encode(wrapW(conn, wrap), obj, f.td)
				if !o.Ok {
					e.Fail("encode", "encoding a valid %s fails: %s", f.td.R, o)
				}
				if o.N != sz.N {
					e.Fail("encode", "%s: announced %d bytes, wrote %d", f.td.R, sz.N, o.N)
				}
			}
			conn.Close()
		}, func() { // receiver
			dsts := map[*TD]reflect.Value{}
			for i, f := range fs {
				var hdr [8]byte
				if _, err := io.ReadFull(conn, hdr[:]); err != nil {
					e.Fail("consumed", "frame %d: header cannot be read: %v", i, err)
				}
				n := binary.LittleEndian.Uint64(hdr[:])
				want := uint64(len(f.td.R.Enc(f.v)))
				if n != want {
					e.Fail("consumed", "frame %d of %s: header says %d bytes, sent %d: the stream is out of step", i, f.td.R, n, want)
				}
				at := conn.Taken
				dry := dryMask>>uint(i&3)&1 == 1
				var o Out
				var got *ref.V
				if dry {
					o = e.Dry(conn, n, f.td)
				} else {
					dst, ok := dsts[f.td]
					if !ok || !inPlace {
						dst = f.td.Zero()
						dsts[f.td] = dst
					}
					o = e.Decode(conn, n, dst, f.td)
					if o.Ok {
						got = f.td.Get(dst)
					}
				}
				e.checkRecv(f, o, got, dry, conn.Taken-at, int(n), "connection")
			}
			e.Probe("connection drained")
		})
	}
	e.Par(tasks...)
}

// ---------------------------------------------------------------- C02

func c02(e *Env) {
	if e.isJumbo() {
		jumbo(e, "C02")
		return
	}
	budget := e.Budget()
	tds := []*TD{e.Type()}
	par := e.S.Draw(4) == 3
	n := 1
	if par {
		e.Schedule()
		n = 2 + e.S.Draw(2)
		if budget > 3000 {
			budget = 3000
		}
		if e.S.Draw(2) == 1 {
			tds = append(tds, e.Type())
		}
	}
	type step struct {
		v       *ref.V
		mutate  int // 0 new object, 1 in place
		healthy bool
		w       WrCfg
		size    bool
	}
	var tasks []func()
	for k := 0; k < n; k++ {
		td := tds[e.S.Draw(len(tds))]
		v := e.Gen(td, budget)
		var steps []step
		for i, c := 0, e.S.Draw(4)+1; i < c; i++ {
			st := step{v: v, w: e.WrCfg(), mutate: 1}
			if i == 0 {
				st.mutate = 0
			} else if e.S.Draw(3) != 0 {
				v = td.R.Mutate(e.S, v, budget)
				st.v = v
			}
			st.size = e.S.Draw(2) == 1
			enc := td.R.Enc(v)
			st.healthy = e.S.Draw(3) == 0
			if !st.healthy {
				st.w.Fail = e.cutPoint(td, v, enc)
				st.w.Style = e.S.Draw(4)
				st.w.Err = []error{errDisk, errFull, io.ErrShortWrite, io.EOF, io.ErrClosedPipe}[e.S.Draw(5)]
			}
			e.Desc("task %d step %d: encode %s (%d bytes), sink fails at %d style %d", k, i, td.R, len(enc), st.w.Fail, st.w.Style)
			steps = append(steps, st)
		}
		tasks = append(tasks, func() {
			var obj reflect.Value
			for _, st := range steps {
				if st.mutate == 0 {
					obj = td.New(st.v)
				} else {
					td.R.Set(obj.Elem(), st.v, true)
				}
				enc := td.R.Enc(st.v)
				w := e.NewWr(st.w)
				o := e.Encode(w.W(), obj, td)
				e.NoteBytes(w.Got())
				if o.Pan != nil {
					e.Fail("panic", "encoding %s panics: %s", td.R, o.Pan)
				}
				if !bytes.HasPrefix(enc, w.Got()) {
					i := diffAt(w.Got(), enc)
					e.Fail("bytes", "%s: wrote %s, which differs from the canonical %s at byte %d", td.R, hexs(w.Got()), hexs(enc), i)
				}
				if o.N != uint64(len(w.Got())) {
					e.Fail("count", "%s: the sink accepted %d bytes, encode reports %d (err %v)", td.R, len(w.Got()), o.N, o.Err)
				}
				if w.After > 0 {
					e.Fail("write after failure", "%s: %d more writes after the failed one", td.R, w.After)
				}
				if w.Failed {
					if o.Err == nil {
						e.Fail("failure swallowed", "%s: the sink failed after %d bytes but encode reports success", td.R, len(w.Got()))
					}
				} else {
					if o.Err != nil {
						e.Fail("refused", "%s: encoding into a healthy sink fails: %v", td.R, o.Err)
					}
					if len(w.Got()) != len(enc) {
						e.Fail("bytes", "%s: wrote %d bytes, the canonical serialization has %d", td.R, len(w.Got()), len(enc))
					}
				}
				if st.size {
					sz := e.Size(obj, td)
					if sz.Pan != nil || sz.N != uint64(len(enc)) {
						e.Fail("size", "%s: announced size %s, the serialization has %d bytes", td.R, sz, len(enc))
					}
				}
			}
		})
	}
	if par {
		e.Par(tasks...)
	} else {
		tasks[0]()
	}
}

// cutPoint draws an offset into an encoding, favouring structure.
func (e *Env) cutPoint(td *TD, v *ref.V, enc []byte) int {
	n := len(enc)
	if n == 0 {
		return 0
	}
	switch e.S.Pick(3, 2, 2, 2) {
	case 0:
		return e.S.Draw(n)
	case 1:
		return n - 1
	case 2:
		_, b := td.R.Layout(v)
		x := b[e.S.Draw(len(b))] + e.S.Draw(3) - 1
		if x < 0 {
			x = 0
		}
		if x > n {
			x = n
		}
		return x
	}
	return e.S.Draw(minInt(n, 9))
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// ---------------------------------------------------------------- C03

func (e *Env) cutErr() error {
	return []error{io.EOF, errReset, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe}[e.S.Draw(5)]
}

func c03(e *Env) {
	if e.isJumbo() {
		jumbo(e, "C03")
		return
	}
	td := e.Type()
	budget := e.Budget()
	if e.S.Draw(4) == 3 {
		c03fuzz(e, td, budget)
		return
	}
	v := e.Gen(td, budget)
	enc := td.R.Enc(v)
	n := len(enc)
	dst := td.Zero()
	for round, rounds := 0, e.S.Draw(3)+1; round < rounds; round++ {
		c := e.RdCfg()
		announced := n
		data := enc
		cut := n
		switch e.S.Pick(6, 2, 1) {
		case 0:
			cut = e.cutPoint(td, v, enc)
		case 1: // everything was delivered before the failure
		case 2: // more announced than there is
			announced = n + []int{1, 4, 7, 32, 1000, 100000}[e.S.Draw(6)]
		}
		if cut < n || announced > n || e.S.Draw(2) == 1 {
			c.Cut, c.CutErr = cut, e.cutErr()
		}
		dry := e.S.Draw(3) == 2
		e.Desc("%s: %d bytes, announced %d, %s dry=%v", td.R, n, announced, c, dry)
		rd := e.NewRd(data, c)
		r, _ := rd.R()
		var o Out
		if dry {
			o = e.Dry(r, uint64(announced), td)
		} else {
			o = e.Decode(r, uint64(announced), dst, td)
		}
		if o.Pan != nil {
			e.Fail("panic", "%s: stream cut at %d of %d (announced %d): panic: %s (%s)", td.R, cut, n, announced, o.Pan, c)
		}
		if cut < announced {
			if o.Ok {
				e.Fail("truncated accepted", "%s: stream ended after %d of %d bytes but the operation reports success (%s, dry=%v)", td.R, cut, announced, c, dry)
			}
		} else {
			e.Probe("failure after the last byte")
			if !o.Ok {
				e.Fail("refused", "%s: all %d bytes were delivered, yet the operation fails: %v (%s, dry=%v)", td.R, n, o.Err, c, dry)
			}
			if !dry && !ref.Equal(td.Get(dst), v) {
				e.Fail("value", "%s: got %s, want %s (%s)", td.R, td.Get(dst), v, c)
			}
		}
	}
	c := e.RdCfg()
	if e.S.Draw(3) == 2 {
		dst = td.Zero()
	}
	r, _ := e.NewRd(enc, c).R()
	o := e.Decode(r, uint64(n), dst, td)
	if !o.Ok {
		e.Fail("retry", "%s: retry on a healthy stream fails: %s (%s)", td.R, o, c)
	}
	if g := td.Get(dst); !ref.Equal(g, v) {
		e.Fail("retry", "%s: retry gives %s, want %s (%s)", td.R, g, v, c)
	}
}

// fuzzInput draws an input for fuzz mode, at least as long as the type's advertised minimum.
func (e *Env) fuzzInput(td *TD, budget int) []byte {
	min := int(td.Def.FuzzMinLen())
	extra := 0
	switch e.S.Pick(2, 2, 3, 2) {
	case 0:
	case 1:
		extra = e.S.Draw(10)
	case 2:
		extra = e.S.Draw(200)
	case 3:
		extra = e.S.Draw(budget + 1)
	}
	if e.big && e.S.Draw(4) != 3 {
		extra = jumboSizes[e.S.Pick(4, 4, 4, 4, 3, 3, 1, 1, 1)] + e.S.Draw(3)
	}
	b := ref.Content(e.S, min+extra, false)
	// many lengths in fuzz mode are 8-byte words: make some of them small
	for k := e.S.Draw(4); k > 0 && len(b) >= 8; k-- {
		i := e.S.Draw(len(b) - 7)
		if e.S.Draw(2) == 1 {
			i = i / 8 * 8
		}
		x := []uint64{0, 1, 2, 3, 7, 8, 31, 32, 33, 64, 100, 255, 256, 1000, 1 << 32, 1<<63 + 5, ^uint64(0)}[e.S.Draw(17)]
		binary.LittleEndian.PutUint64(b[i:], x)
	}
	return b
}

func c03fuzz(e *Env, td *TD, budget int) {
	in := e.fuzzInput(td, budget)
	base := td.Zero()
	o := e.Fuzz(e.NewRd(in, Plain()), uint64(len(in)), base, td)
	if !o.Ok || o.N > uint64(len(in)) {
		e.Probe("fuzz baseline fails") // C10 judges that
		return
	}
	need := int(o.N)
	want := td.Get(base)
	for round, rounds := 0, e.S.Draw(2)+1; round < rounds; round++ {
		c := e.RdCfg()
		cut := need
		switch e.S.Pick(3, 2, 2, 2) {
		case 0:
			cut = e.S.Draw(need + 1)
		case 1:
			cut = need - 1
		case 3:
			cut = need + e.S.Draw(len(in)-need+1)
		}
		if cut < 0 {
			cut = 0
		}
		c.Cut, c.CutErr = cut, e.cutErr()
		dst := td.Zero()
		r, _ := e.NewRd(in, c).R()
		e.Desc("fuzz %s: %d bytes, needs %d, %s", td.R, len(in), need, c)
		o := e.Fuzz(r, uint64(len(in)), dst, td)
		if o.Pan != nil {
			e.Fail("panic", "fuzz mode of %s: stream cut at %d (needs %d): panic: %s (%s)", td.R, cut, need, o.Pan, c)
		}
		if cut < need && o.Ok {
			e.Fail("truncated accepted", "fuzz mode of %s: stream ended after %d bytes of the %d needed, yet success (%s)", td.R, cut, need, c)
		}
		if cut >= need {
			if !o.Ok {
				e.Fail("refused", "fuzz mode of %s: the needed %d bytes were delivered (of %d), yet error %v (%s)", td.R, need, cut, o.Err, c)
			}
			if !ref.Equal(td.Get(dst), want) || o.N != uint64(need) {
				e.Fail("value", "fuzz mode of %s: got %s n=%d, want %s n=%d (%s)", td.R, td.Get(dst), o.N, want, need, c)
			}
		}
	}
}

// ---------------------------------------------------------------- C04

// corrupt damages a stored encoding in one way.
func (e *Env) corrupt(td *TD, v *ref.V, b []byte) []byte {
	n := len(b)
	out := append([]byte(nil), b...)
	pick := e.S.Pick(3, 3, 5, 2, 2, 2, 2, 2, 2, 1, 2)
	if n == 0 && pick != 9 && pick != 4 {
		pick = 4
	}
	span := func() (int, int) {
		i := e.S.Draw(n)
		l := []int{1, 2, 4, 8, 3, 16, 32, 512}[e.S.Draw(8)]
		if i+l > n {
			l = n - i
		}
		return i, i + l
	}
	switch pick {
	case 0:
		i := e.S.Draw(n)
		out[i] ^= 1 << uint(e.S.Draw(8))
		e.Fault("bit flip")
	case 1:
		i := e.S.Draw(n)
		if e.S.Draw(3) == 2 {
			i = n - 1
		}
		out[i] = []byte{0, 1, 2, 0xff, 0x80, byte(e.S.Draw(256))}[e.S.Draw(6)]
		e.Fault("byte overwritten")
	case 2: // offset word
		offs, _ := td.R.Layout(v)
		if len(offs) == 0 {
			i := e.S.Draw(n)
			out[i]++
			e.Fault("byte overwritten")
			break
		}
		o := offs[e.S.Draw(len(offs))]
		if o+4 > len(out) {
			break
		}
		x := binary.LittleEndian.Uint32(out[o:])
		switch e.S.Draw(10) {
		case 0:
			x++
		case 1:
			x--
		case 2:
			x += 4
		case 3:
			x -= 4
		case 4:
			x = uint32(n)
		case 5:
			x = uint32(e.S.Draw(n + 2))
		case 6:
			x = 0xffffffff - uint32(e.S.Draw(8))
		case 7:
			x |= 0x80000000
		case 8:
			o2 := offs[e.S.Draw(len(offs))]
			if o2+4 <= len(out) {
				x = binary.LittleEndian.Uint32(out[o2:])
			}
		case 9:
			x = 0
		}
		binary.LittleEndian.PutUint32(out[o:], x)
		e.Fault("offset damaged")
	case 3:
		out = out[:e.S.Draw(n)]
		e.Fault("truncated")
	case 4:
		out = append(out, ref.Content(e.S, e.S.Draw(40)+1, false)...)
		e.Fault("extended")
	case 5:
		i, j := span()
		for k := i; k < j; k++ {
			out[k] = 0
		}
		e.Fault("lost (zeroed) range")
	case 6:
		i, j := span()
		out = append(out[:j:j], append(append([]byte(nil), b[i:j]...), b[j:]...)...)
		e.Fault("duplicated range")
	case 7:
		i, j := span()
		out = append(out[:i:i], b[j:]...)
		e.Fault("dropped range")
	case 8:
		i, j := span()
		k, _ := span()
		copy(out[k:], b[i:j])
		e.Fault("misplaced range")
	case 9:
		out = ref.Content(e.S, e.S.Draw(64), false)
		e.Fault("replaced by garbage")
	case 10: // part of another value
		o := td.R.Enc(td.R.Gen(e.S, 200))
		i := e.S.Draw(n)
		if i < len(o) {
			if e.S.Draw(2) == 0 {
				out = append(out[:i:i], o[i:]...)
			} else {
				copy(out[i:], o[i:])
			}
		}
		e.Fault("torn: spliced with another value")
	}
	return out
}

// damaged draws a byte string from a valid encoding and the announced length that goes with it.
func (e *Env) damaged(td *TD, budget int) (b []byte, n uint64) {
	v := e.Gen(td, budget)
	b = td.R.Enc(v)
	for k := e.S.Pick(2, 6, 3, 1); k > 0; k-- {
		b = e.corrupt(td, v, b)
	}
	n = uint64(len(b))
	if e.S.Draw(8) == 7 {
		d := []int{1, 4, 2, 8, 32, len(b)}[e.S.Draw(6)]
		if e.S.Draw(2) == 0 && uint64(d) <= n {
			n -= uint64(d)
		} else {
			n += uint64(d)
		}
		e.Fault("wrong announced length")
	}
	return
}

func c04(e *Env) {
	if e.isJumbo() {
		jumbo(e, "C04")
		return
	}
	td := e.Type()
	budget := e.Budget()
	dst := td.Zero()
	for round, rounds := 0, e.S.Draw(3)+1; round < rounds; round++ {
		b, n := e.damaged(td, budget)
		c := e.RdCfg()
		rd := e.NewRd(b, c)
		r, _ := rd.R()
		e.Desc("%s: bytes %s announced %d (%s)", td.R, hexs(b), n, c)
		var want *ref.V
		var werr error = io.ErrUnexpectedEOF
		if n <= uint64(len(b)) {
			want, werr = td.R.Dec(b[:n])
		}
		if e.S.Draw(2) == 0 {
			dst = td.Zero()
		}
		o := e.Decode(r, n, dst, td)
		if o.Pan != nil {
			e.Fail("panic", "%s: decoding %s (announced %d) panics: %s", td.R, hexs(b), n, o.Pan)
		}
		if o.Ok != (werr == nil) {
			if o.Ok {
				e.Fail("accepted", "%s: %s (announced %d) is accepted but is not canonical: %v", td.R, hexs(b), n, werr)
			}
			e.Fail("refused", "%s: %s (announced %d) is the canonical form of %s but is rejected: %v", td.R, hexs(b), n, want, o.Err)
		}
		if !o.Ok {
			e.Probe("rejected")
			continue
		}
		e.Probe("accepted")
		got := td.Get(dst)
		if !ref.Equal(got, want) {
			e.Fail("value", "%s: %s decodes to %s, it denotes %s", td.R, hexs(b), got, want)
		}
		w := e.NewWr(HealthyW())
		o = e.Encode(w.W(), dst, td)
		if !o.Ok || !bytes.Equal(w.Got(), b[:n]) {
			e.Fail("re-encode", "%s: %s decodes, but encodes again to %s (%s)", td.R, hexs(b[:n]), hexs(w.Got()), o)
		}
	}
}

// ---------------------------------------------------------------- C05

func c05(e *Env) {
	if e.isJumbo() {
		jumbo(e, "C05")
		return
	}
	td := e.Type()
	budget := e.Budget()
	for round, rounds := 0, e.S.Draw(3)+1; round < rounds; round++ {
		b, n := e.damaged(td, budget)
		c := e.RdCfg()
		if e.S.Draw(4) == 3 {
			c.Cut, c.CutErr = e.S.Draw(len(b)+1), e.cutErr()
			if e.S.Draw(3) == 2 {
				c.Cut = minInt(len(b), int(n))
			}
		}
		e.Desc("%s: bytes %s announced %d (%s)", td.R, hexs(b), n, c)
		r1, _ := e.NewRd(b, c).R()
		dst := td.Zero()
		o1 := e.Decode(r1, n, dst, td)
		c2 := c
		if e.S.Draw(2) == 1 {
			// the same bytes and failure, fragmented in another way
			x := e.RdCfg()
			x.Cut, x.CutErr = c.Cut, c.CutErr
			c2 = x
		}
		r2, _ := e.NewRd(b, c2).R()
		o2 := e.Dry(r2, n, td)
		if o1.Pan != nil {
			e.Fail("panic", "%s: decoding %s (announced %d) panics: %s (%s)", td.R, hexs(b), n, o1.Pan, c)
		}
		if o2.Pan != nil {
			e.Fail("panic", "%s: dry-checking %s (announced %d) panics: %s (%s)", td.R, hexs(b), n, o2.Pan, c2)
		}
		if o1.Ok != o2.Ok {
			e.Fail("disagree", "%s: bytes %s announced %d: decode says %s, dry check says %s (%s / %s)", td.R, hexs(b), n, o1, o2, c, c2)
		}
		if o1.Ok {
			e.Probe("both accept")
		} else {
			e.Probe("both reject")
		}
	}
	_ = rt.Active
}
