package scen

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/protolambda/zssz/htr"

	"verif.local/sim/ref"
	"verif.local/sim/rt"
)

// prng is a small private generator for the inner decisions of one seam: its seed is one recorded choice.
type prng struct{ s uint64 }

func (p *prng) n(k int) int {
	if k <= 1 {
		return 0
	}
	p.s = rt.Mix(p.s, 3)
	return int(p.s % uint64(k))
}

var errDisk = errors.New("simulated I/O error")
var errReset = errors.New("simulated connection reset")
var errFull = errors.New("simulated: no space left on device")

// RdCfg decides how a simulated reader delivers its data. The zero value delivers everything at once.
type RdCfg struct {
	Max     int  // largest chunk delivered per call (0: unlimited)
	Zero    bool // sometimes returns 0, nil
	EOFWith bool // the last bytes come together with io.EOF (or with the error)
	Scrib   bool // uses the rest of p as scratch space
	Yield   bool // lets other tasks run during the call
	Wrap    int  // 0 bare, 1 with Seek, 2 with ReadByte, 3 bufio, 4 WriteTo, 5 Len, 6 bytes.Reader, 7 bytes.Buffer, 8 strings.Reader, 9 LimitedReader
	Seed    uint64
	Delay   bool // takes simulated time

	Cut    int // deliver only Cut bytes, then fail (-1: never)
	CutErr error
	Panic  int // call index at which it panics (-1)
	Stall  int // call index at which it never returns (-1)
	Hook   func()
}

func (c RdCfg) String() string {
	s := fmt.Sprintf("chunk<=%d", c.Max)
	if c.Max == 0 {
		s = "whole"
	}
	for _, x := range []struct {
		b bool
		n string
	}{{c.Zero, "zero-reads"}, {c.EOFWith, "data+EOF"}, {c.Scrib, "scratch"}, {c.Yield, "yield"}, {c.Delay, "delay"}} {
		if x.b {
			s += "," + x.n
		}
	}
	if c.Wrap > 0 {
		s += fmt.Sprintf(",wrap%d", c.Wrap)
	}
	if c.Cut >= 0 {
		s += fmt.Sprintf(",cut@%d:%v", c.Cut, c.CutErr)
	}
	if c.Panic >= 0 {
		s += fmt.Sprintf(",panic@call%d", c.Panic)
	}
	if c.Stall >= 0 {
		s += fmt.Sprintf(",stall@call%d", c.Stall)
	}
	return s
}

// Plain is the reader configuration without any fragmentation.
func Plain() RdCfg { return RdCfg{Cut: -1, Panic: -1, Stall: -1} }

// RdCfg draws a contract-abiding delivery.
func (e *Env) RdCfg() RdCfg {
	c := Plain()
	switch e.S.Pick(3, 3, 2, 2, 1) {
	case 0:
	case 1:
		c.Max = 1
	case 2:
		c.Max = e.S.Draw(8) + 1
	case 3:
		c.Max = e.S.Draw(100) + 1
	case 4:
		c.Max = []int{512, 4096, 31, 32, 33}[e.S.Draw(5)]
	}
	c.Zero = e.S.Draw(4) == 3
	c.EOFWith = e.S.Draw(3) == 2
	c.Scrib = e.S.Draw(3) == 2
	c.Yield = e.S.Draw(3) == 2
	c.Wrap = e.S.Pick(8, 1, 1, 1, 1, 1, 1, 1, 1, 1)
	c.Delay = e.S.Draw(5) == 4
	c.Seed = uint64(e.S.Draw(1 << 16))
	if e.big {
		if c.Max > 0 {
			c.Max = []int{4096, 5000, 32768, 65536, 100001}[e.S.Draw(5)]
		}
		if c.Wrap == 2 {
			c.Wrap = 0
		}
	}
	return c
}

// Rd is a simulated input stream over Data.
type Rd struct {
	e     *Env
	c     RdCfg
	Data  []byte
	pos   int
	calls int
	zeros int
	after int
	rnd   prng
	Fired bool // the configured failure was delivered
	Big   int  // largest request

	own    io.Reader // of wraps 6 to 8
	ownPos func() int
}

func (e *Env) NewRd(data []byte, c RdCfg) *Rd {
	return &Rd{e: e, c: c, Data: data, rnd: prng{c.Seed}}
}

func (r *Rd) end() (int, error) {
	if r.c.Cut >= 0 && r.c.Cut <= len(r.Data) {
		return r.c.Cut, r.c.CutErr
	}
	return len(r.Data), io.EOF
}

func (r *Rd) fail() {
	if r.c.Cut >= 0 && !r.Fired {
		r.Fired = true
		r.e.Fault("stream cut: " + errName(r.c.CutErr))
	}
}

func errName(err error) string {
	switch err {
	case io.EOF:
		return "EOF"
	case io.ErrUnexpectedEOF:
		return "unexpected EOF"
	case nil:
		return "none"
	}
	return "error"
}

func (r *Rd) Read(p []byte) (int, error) {
	call := r.calls
	r.calls++
	if len(p) > r.Big {
		r.Big = len(p)
	}
	if call == r.c.Panic {
		r.e.Fault("reader panics")
		panic(Injected{"reader"})
	}
	if call == r.c.Stall {
		r.e.Fault("reader stalls for ever")
		rt.StallForever()
	}
	if r.c.Hook != nil {
		r.c.Hook()
	}
	if r.c.Yield {
		rt.Point()
	}
	if r.c.Delay && r.rnd.n(3) == 0 {
		rt.Sleep(int64(r.rnd.n(1000000) + 1))
	}
	if len(p) == 0 {
		return 0, nil
	}
	end, eerr := r.end()
	if r.pos >= end {
		r.after++
		if r.after > 10000 {
			panic(rt.OutOfFuel{Steps: int64(r.after)})
		}
		r.fail()
		return 0, eerr
	}
	if r.c.Zero && r.zeros < 3 && r.rnd.n(4) == 0 {
		r.zeros++
		r.e.Quirk("empty read")
		return 0, nil
	}
	r.zeros = 0
	n := len(p)
	if r.c.Max > 0 {
		k := r.c.Max
		if k > 1 && r.rnd.n(3) != 0 {
			k = r.rnd.n(k) + 1
		}
		if k < n {
			n = k
			r.e.Quirk("short read")
		}
	}
	if n > end-r.pos {
		n = end - r.pos
	}
	copy(p, r.Data[r.pos:r.pos+n])
	r.e.Note(uint64(n))
	r.pos += n
	if r.c.Scrib && n < len(p) {
		g := byte(r.rnd.n(256)) | 2
		for i := n; i < len(p) && i < n+4096; i++ {
			p[i] = g
		}
		r.e.Quirk("scratch use of buffer")
	}
	if r.c.Yield {
		rt.Point()
	}
	if r.c.EOFWith && r.pos == end {
		r.e.Quirk("data with EOF or error")
		r.fail()
		return n, eerr
	}
	return n, nil
}

type seekRd struct{ *Rd }

// Seek behaves like a file: seeking beyond the end is not an error.
func (s seekRd) Seek(off int64, whence int) (int64, error) {
	var base int64
	switch whence {
	case io.SeekCurrent:
		base = int64(s.pos)
	case io.SeekEnd:
		base = int64(len(s.Data))
	}
	if base+off < 0 {
		return 0, errors.New("negative seek")
	}
	s.pos = int(base + off)
	return int64(s.pos), nil
}

type byteRd struct{ *Rd }

func (b byteRd) ReadByte() (byte, error) {
	var x [1]byte
	for {
		n, err := b.Rd.Read(x[:])
		if n == 1 {
			return x[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

type wtRd struct{ *Rd }

func (b wtRd) WriteTo(w io.Writer) (int64, error) {
	var t int64
	var x [64]byte
	for {
		n, err := b.Rd.Read(x[:])
		if n > 0 {
			m, werr := w.Write(x[:n])
			t += int64(m)
			if werr != nil {
				return t, werr
			}
		}
		if err == io.EOF {
			return t, nil
		}
		if err != nil {
			return t, err
		}
	}
}

// R is the reader in the form the configuration asks for; pos tells how much was taken from it.
func (r *Rd) R() (rd io.Reader, pos func() int) {
	at := func() int { return r.pos }
	switch r.c.Wrap {
	case 1:
		return seekRd{r}, at
	case 2:
		return byteRd{r}, at
	case 3:
		b := bufio.NewReaderSize(r, 16+int(r.c.Seed%200))
		return b, func() int { return r.pos - b.Buffered() }
	case 4:
		return wtRd{r}, at
	case 9:
		n := int64(len(r.Data))
		if r.c.Cut >= 0 || r.c.Seed&1 == 1 { // as far as the limit goes there may be more
			n += 1000
		}
		return io.LimitReader(r, n), at
	case 5, 6, 7, 8:
		if c := &r.c; c.Wrap == 5 || c.Cut >= 0 || c.Panic >= 0 || c.Stall >= 0 || c.Hook != nil {
			return lenRd{r}, at
		}
		if r.own == nil {
			r.e.Quirk("standard library reader")
			r.own, r.ownPos = r.std()
		}
		return r.own, r.ownPos
	}
	return r, at
}

// lenRd knows how much is left.
type lenRd struct{ *Rd }

func (l lenRd) Len() int {
	if end, _ := l.end(); end > l.pos {
		return end - l.pos
	}
	return 0
}

// std is a reader of the standard library with the same content. Asking for the position is the end of the bytes
// before it: their memory is used for something else then.
func (r *Rd) std() (io.Reader, func() int) {
	own := append([]byte(nil), r.Data[r.pos:]...)
	base := r.pos
	var rd interface {
		io.Reader
		Len() int
	}
	switch r.c.Wrap {
	case 8:
		rd = strings.NewReader(string(own))
	case 7:
		rd = bytes.NewBuffer(own)
	default:
		rd = bytes.NewReader(own)
	}
	at := 0
	return rd, func() int {
		pos := len(r.Data) - base - rd.Len()
		for ; at < pos && at < len(own); at++ {
			own[at] ^= 0x5a
		}
		r.pos = base + pos
		return r.pos
	}
}

// ---------------------------------------------------------------- sinks

type WrCfg struct {
	Yield   bool
	Fail    int // total bytes accepted before failing (-1: never)
	Style   int // 0: the failing write accepts what fits; 1: nothing of it; 2: all of it (error after); 3: short without... error io.ErrShortWrite
	Err     error
	Panic   int
	Stall   int
	Hook    func()
	Late    bool // looks at p only after letting others run
	Patient bool // does not mind how often it is written to after it failed
	Delay   bool
	Wrap    int // 0 bare, 1 with WriteByte and WriteString, 2 with ReadFrom, 3 with all of them, 4 bytes.Buffer, 5 bufio
	Seed    uint64
}

func HealthyW() WrCfg { return WrCfg{Fail: -1, Panic: -1, Stall: -1} }

func (e *Env) WrCfg() WrCfg {
	c := HealthyW()
	c.Yield = e.S.Draw(3) == 2
	c.Late = e.S.Draw(3) == 2
	c.Delay = e.S.Draw(6) == 5
	c.Wrap = e.S.Pick(4, 1, 1, 1, 1, 1)
	c.Seed = uint64(e.S.Draw(1 << 12))
	return c
}

// Wr is a simulated sink.
type Wr struct {
	e      *Env
	c      WrCfg
	got    []byte
	buf    *bytes.Buffer // of wrap 4
	pre    int           // bytes in it before
	bw     *bufio.Writer // of wrap 5
	calls  int
	Failed bool
	After  int // writes after the failed one
	rnd    prng
}

func (e *Env) NewWr(c WrCfg) *Wr { return &Wr{e: e, c: c, rnd: prng{c.Seed}} }

func (w *Wr) Write(p []byte) (int, error) {
	call := w.calls
	w.calls++
	if w.Failed {
		w.After++
		if w.After > 10000 && !w.c.Patient {
			panic(rt.OutOfFuel{Steps: int64(w.After)})
		}
		return 0, w.c.Err
	}
	if w.c.Hook != nil {
		w.c.Hook()
	}
	if w.c.Delay && w.rnd.n(3) == 0 {
		rt.Sleep(int64(w.rnd.n(1000000) + 1))
	}
	if w.c.Late {
		rt.Point()
	}
	if call == w.c.Panic {
		w.e.Fault("writer panics")
		panic(Injected{"writer"})
	}
	if call == w.c.Stall {
		w.e.Fault("writer stalls for ever")
		rt.StallForever()
	}
	n := len(p)
	if w.c.Fail >= 0 && len(w.got)+n > w.c.Fail || (w.c.Fail >= 0 && w.c.Style == 2 && len(w.got)+n == w.c.Fail && n > 0) {
		w.Failed = true
		switch w.c.Style {
		case 0:
			n = w.c.Fail - len(w.got)
			w.e.Fault("partial write then error")
		case 1:
			n = 0
			w.e.Fault("write refused")
		case 2:
			w.e.Fault("write accepted but reported failed")
		case 3:
			n = (w.c.Fail - len(w.got)) / 2
			w.e.Fault("short write")
		}
		w.got = append(w.got, p[:n]...)
		return n, w.c.Err
	}
	w.got = append(w.got, p...)
	if w.c.Yield {
		rt.Point()
	}
	return n, nil
}

type byteWr struct{ w io.Writer }

func (b byteWr) Write(p []byte) (int, error)       { return b.w.Write(p) }
func (b byteWr) WriteString(p string) (int, error) { return b.w.Write([]byte(p)) }
func (b byteWr) WriteByte(c byte) error {
	_, err := b.w.Write([]byte{c})
	return err
}

type fromWr struct{ w io.Writer }

func (f fromWr) Write(p []byte) (int, error) { return f.w.Write(p) }
func (f fromWr) ReadFrom(r io.Reader) (n int64, err error) {
	buf := make([]byte, 100)
	for {
		k, rerr := r.Read(buf)
		if k > 0 {
			m, werr := f.w.Write(buf[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if rerr == io.EOF {
			return n, nil
		}
		if rerr != nil {
			return n, rerr
		}
	}
}

type allWr struct {
	byteWr
	fromWr
}

func (a allWr) Write(p []byte) (int, error) { return a.byteWr.Write(p) }

// W is the sink in the form the configuration asks for.
func (w *Wr) W() io.Writer {
	if c := &w.c; c.Wrap < 4 || c.Fail >= 0 || c.Panic >= 0 || c.Stall >= 0 || c.Hook != nil {
		return wrapW(w, w.c.Wrap)
	}
	if w.c.Wrap == 5 {
		if w.bw == nil {
			w.bw = bufio.NewWriterSize(w, 16+int(w.c.Seed%200))
		}
		return w.bw
	}
	if w.buf == nil {
		w.pre = int(w.c.Seed % 40) // something else is in it before
		w.buf = bytes.NewBuffer(append(make([]byte, 0, w.c.Seed%300), bytes.Repeat([]byte{0xee}, w.pre)...))
	}
	return w.buf
}

// Got is what the sink was given so far.
func (w *Wr) Got() []byte {
	if w.bw != nil {
		w.bw.Flush()
	}
	if w.buf != nil {
		b := w.buf.Bytes()
		if len(b) < w.pre || bytes.Count(b[:w.pre], []byte{0xee}) != w.pre {
			w.e.Fail("sink", "the %d bytes that were in the buffer before are changed: %s", w.pre, hexs(b))
		}
		return append([]byte(nil), b[w.pre:]...)
	}
	return w.got
}

func wrapW(w io.Writer, how int) io.Writer {
	switch how {
	case 1:
		return byteWr{w}
	case 2:
		return fromWr{w}
	case 3:
		return allWr{byteWr{w}, fromWr{w}}
	}
	return w
}

// ---------------------------------------------------------------- hash functions

func mixHash(k uint64) func([]byte) [32]byte {
	return func(b []byte) (out [32]byte) {
		h := [4]uint64{k, k ^ 0x1234567, k + 99, ^k}
		for i := 0; i < len(b); i += 8 {
			var x uint64
			for j := 0; j < 8 && i+j < len(b); j++ {
				x |= uint64(b[i+j]) << (8 * uint(j))
			}
			h[i/8&3] = rt.Mix(h[i/8&3]^x, uint64(i)+k)
			h[(i/8+1)&3] += h[i/8&3]
		}
		for i := 0; i < 32; i++ {
			v := rt.Mix(h[0]+h[1]*3+h[2]*5+h[3]*7, uint64(i/8))
			out[i] = byte(v >> (8 * uint(i&7)))
		}
		return
	}
}

var hashes = []*ref.Hash{ref.NewHash("mixA", mixHash(11)), ref.SHA, ref.NewHash("mixB", mixHash(97))}

// UseHash draws a hash function and re-initialises the zero-hash table with it.
func (e *Env) UseHash() *ref.Hash {
	h := hashes[e.S.Draw(len(hashes))]
	if e.S.Draw(8) == 7 { // a first attempt with another function is abandoned
		x := e.NewHs(hashes[e.S.Draw(len(hashes))])
		x.Panic = e.S.Draw(70)
		e.try(func() { htr.InitZeroHashes(x.Fn()) })
	}
	htr.InitZeroHashes(h.F)
	return h
}

// Hs is a hash callback under the simulator's control.
type Hs struct {
	e     *Env
	h     *ref.Hash
	Yield bool
	Panic int
	Stall int
	Hook  func()
	calls int
}

func (e *Env) NewHs(h *ref.Hash) *Hs { return &Hs{e: e, h: h, Panic: -1, Stall: -1} }

func (h *Hs) gate() {
	call := h.calls
	h.calls++
	if h.Hook != nil {
		h.Hook()
	}
	if h.Yield {
		rt.Point()
	}
	if call == h.Panic {
		h.e.Fault("hash panics")
		panic(Injected{"hash"})
	}
	if call == h.Stall {
		h.e.Fault("hash stalls for ever")
		rt.StallForever()
	}
}

func (h *Hs) Combi(a, b [32]byte) [32]byte {
	h.gate()
	return h.h.Pair(a, b)
}

func (h *Hs) MixIn(a [32]byte, i uint64) [32]byte {
	h.gate()
	var l [32]byte
	for j := 0; j < 8; j++ {
		l[j] = byte(i >> (8 * uint(j)))
	}
	return h.h.Pair(a, l)
}

// Fn is the same as a plain function, to be adapted by the library.
func (h *Hs) Fn() htr.HashFn {
	return func(b []byte) [32]byte {
		h.gate()
		return h.h.F(b)
	}
}

// Either draws whether the callback is handed over as it is or as a plain function.
func (e *Env) Either(h *Hs) htr.MerkleFn {
	if e.S.Draw(3) == 2 {
		return h.Fn()
	}
	return h
}

// Hasher draws how the callback is provided: the library's adapter or the simulator's own.
func (e *Env) Hasher(h *ref.Hash) htr.MerkleFn {
	k := e.S.Draw(4)
	if k == 0 {
		return htr.HashFn(h.F)
	}
	x := e.NewHs(h)
	x.Yield = k > 1
	if k == 3 {
		return x.Fn()
	}
	return x
}

// ---------------------------------------------------------------- connections

type segment struct {
	at   int64
	data []byte
}

// Conn is a one-way simulated connection: bytes written arrive later, in segments of the network's choosing.
type Conn struct {
	e       *Env
	segs    []segment
	last    int64
	window  int
	flight  int
	maxSeg  int
	latency int
	closed  bool
	eofWith bool
	rnd     prng
	Taken   int
	readers int
}

func (e *Env) NewConn() *Conn {
	c := &Conn{e: e, rnd: prng{uint64(e.S.Draw(1 << 16))}}
	c.maxSeg = []int{1 << 20, 1, 7, 100, 1460}[e.S.Draw(5)]
	c.window = []int{1 << 20, 64, 1, 500, 5000}[e.S.Draw(5)]
	c.latency = []int{0, 1000, 1000000, 1}[e.S.Draw(4)]
	c.eofWith = e.S.Draw(2) == 1
	return c
}

func (c *Conn) Write(p []byte) (int, error) {
	done := 0
	for done < len(p) {
		rt.WaitFor(func() bool { return c.flight < c.window })
		n := len(p) - done
		if m := c.window - c.flight; n > m {
			n = m
		}
		if c.maxSeg < n {
			n = c.rnd.n(c.maxSeg) + 1
		}
		at := c.e.Sim.Now
		if c.latency > 0 {
			at += int64(c.rnd.n(c.latency))
			if c.rnd.n(20) == 0 {
				at += int64(c.latency) * 20
				c.e.Quirk("delivery delay")
			}
		}
		if at < c.last {
			at = c.last
		}
		c.last = at
		c.segs = append(c.segs, segment{at, append([]byte(nil), p[done:done+n]...)})
		c.flight += n
		done += n
		rt.Point()
	}
	return done, nil
}

func (c *Conn) Close() { c.closed = true }

func (c *Conn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if c.rnd.n(12) == 0 {
		c.e.Quirk("empty read")
		return 0, nil
	}
	rt.WaitFor(func() bool { return len(c.segs) > 0 || c.closed })
	if len(c.segs) == 0 {
		return 0, io.EOF
	}
	if d := c.segs[0].at - c.e.Sim.Now; d > 0 {
		rt.Sleep(d)
	}
	n := copy(p, c.segs[0].data)
	if n < len(p) {
		c.e.Quirk("short read")
	}
	c.segs[0].data = c.segs[0].data[n:]
	if len(c.segs[0].data) == 0 {
		c.segs = c.segs[1:]
	}
	c.flight -= n
	c.Taken += n
	if c.eofWith && c.closed && len(c.segs) == 0 {
		c.e.Quirk("data with EOF or error")
		return n, io.EOF
	}
	return n, nil
}

var _ = bytes.NewReader
var _ = sha256.New

func randBytes(seed uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		seed = rt.Mix(seed, 5)
		b[i] = byte(seed >> 17)
	}
	return b
}
