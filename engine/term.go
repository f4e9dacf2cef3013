package main

// Hash-consed SMT terms (bit-vectors up to 64 bits, booleans, IEEE doubles)
// with a bit-slice canonical form, known bits and value ranges.

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OBNot
	OBAnd
	OBOr
	OEq
	OIte
	OUlt
	OSlt
	OLin // sum coefs[i]*args[i] + c
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OAnd
	OOr
	OXor // n-ary, sorted, no constant except c
	OShl
	OLshr
	OAshr
	OConcat // msb first
	OExtract
	OSext
	OU2F
	OS2F
	OF2U
	OF2S
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFEq
	OFLt
	OFLe
	OF2F
	OFBits // float -> bits (uninterpreted unless const)
	OBitsF // bits -> float
)

const (
	WBool = 0
	WF64  = 1064
	WF32  = 1032
)

type Term struct {
	op       Op
	w        int
	args     []*Term
	coefs    []uint64
	c        uint64 // const value; extract: hi<<8|lo ; lin/xor: constant
	name     string
	id       int
	k0, k1   uint64 // known zero / known one bits
	ulo, uhi uint64
	slo, shi int64
	vars     []int32
	varsDone bool
	size     int
	hasFP    bool
	// bounds of a floating-point variable implied by the query being solved
	fset     bool
	flo, fhi float64
}

type TermCtx struct {
	tab    map[string]*Term
	n      int
	vars   []*Term
	True   *Term
	False  *Term
	keybuf []byte
	varset map[string]*Term
	consts map[[2]uint64]*Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[string]*Term{}, varset: map[string]*Term{}, consts: map[[2]uint64]*Term{}}
	c.True = c.Const(WBool, 1)
	c.False = c.Const(WBool, 0)
	return c
}

func isFP(w int) bool { return w == WF64 || w == WF32 }

func maskW(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) IsTrue() bool  { return t.op == OConst && t.w == WBool && t.c == 1 }
func (t *Term) IsFalse() bool { return t.op == OConst && t.w == WBool && t.c == 0 }
func (t *Term) F() float64 {
	if t.w == WF32 {
		return float64(math.Float32frombits(uint32(t.c)))
	}
	return math.Float64frombits(t.c)
}

func signExt(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (c *TermCtx) Const(w int, v uint64) *Term {
	if w > 0 && w <= 64 {
		v &= maskW(w)
	}
	k := [2]uint64{uint64(w), v}
	if t, ok := c.consts[k]; ok {
		return t
	}
	t := &Term{op: OConst, w: w, c: v, id: c.n, varsDone: true, size: 1}
	c.n++
	if w > 0 && w <= 64 {
		t.k1 = v
		t.k0 = ^v & maskW(w)
		t.ulo, t.uhi = v, v
		t.slo, t.shi = signExt(v, w), signExt(v, w)
	}
	if isFP(w) {
		t.hasFP = true
	}
	c.consts[k] = t
	return t
}
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *TermCtx) F64(f float64) *Term { return c.Const(WF64, math.Float64bits(f)) }

func (c *TermCtx) Var(name string, w int) *Term {
	if t, ok := c.varset[name]; ok {
		return t
	}
	t := &Term{op: OVar, w: w, name: name, id: c.n, size: 1}
	c.n++
	t.vars = []int32{int32(len(c.vars))}
	t.varsDone = true
	if w > 0 && w <= 64 {
		t.uhi = maskW(w)
		t.slo, t.shi = signExt(uint64(1)<<uint(w-1), w), int64(maskW(w)>>1)
	}
	if isFP(w) {
		t.hasFP = true
	}
	c.vars = append(c.vars, t)
	c.varset[name] = t
	return t
}

func putU(b []byte, v uint64) []byte {
	return append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24), byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56))
}

func (c *TermCtx) mk(op Op, w int, cv uint64, coefs []uint64, args ...*Term) *Term {
	b := c.keybuf[:0]
	b = append(b, byte(op), byte(w), byte(w>>8))
	b = putU(b, cv)
	for _, a := range args {
		b = append(b, byte(a.id), byte(a.id>>8), byte(a.id>>16), byte(a.id>>24))
	}
	if coefs != nil {
		b = append(b, 'c')
		for _, x := range coefs {
			b = putU(b, x)
		}
	}
	c.keybuf = b
	if t, ok := c.tab[string(b)]; ok {
		return t
	}
	t := &Term{op: op, w: w, c: cv, coefs: coefs, args: append([]*Term(nil), args...), id: c.n}
	c.n++
	t.size = 1
	for _, a := range args {
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
		if a.hasFP {
			t.hasFP = true
		}
	}
	if isFP(w) {
		t.hasFP = true
	}
	c.analyze(t)
	c.tab[string(b)] = t
	return t
}

func (t *Term) exHi() int { return int(t.c >> 8) }
func (t *Term) exLo() int { return int(t.c & 0xff) }

// analyze computes known bits and ranges.
func (c *TermCtx) analyze(t *Term) {
	w := t.w
	if w <= 0 || w > 64 {
		return
	}
	m := maskW(w)
	t.uhi = m
	t.slo, t.shi = signExt(uint64(1)<<uint(w-1), w), int64(m>>1)
	switch t.op {
	case OConcat:
		sh := w
		for _, a := range t.args {
			sh -= a.w
			t.k0 |= a.k0 << uint(sh)
			t.k1 |= a.k1 << uint(sh)
			t.ulo |= a.ulo << uint(sh)
		}
		t.uhi = 0
		sh = w
		for _, a := range t.args {
			sh -= a.w
			t.uhi |= a.uhi << uint(sh)
		}
	case OExtract:
		a := t.args[0]
		lo := uint(t.exLo())
		t.k0 = (a.k0 >> lo) & m
		t.k1 = (a.k1 >> lo) & m
		if a.uhi>>lo <= m {
			t.ulo, t.uhi = a.ulo>>lo, a.uhi>>lo
		}
	case OAnd:
		a, b := t.args[0], t.args[1]
		t.k1 = a.k1 & b.k1
		t.k0 = a.k0 | b.k0
		t.uhi = minU(a.uhi, b.uhi)
	case OOr:
		a, b := t.args[0], t.args[1]
		t.k1 = a.k1 | b.k1
		t.k0 = a.k0 & b.k0
		t.ulo = maxU(a.ulo, b.ulo)
	case OXor:
		k0, k1 := ^t.c&m, t.c
		for _, a := range t.args {
			n1 := (k1 & a.k0) | (k0 & a.k1)
			n0 := (k0 & a.k0) | (k1 & a.k1)
			k0, k1 = n0, n1
		}
		t.k0, t.k1 = k0&m, k1&m
	case OIte:
		a, b := t.args[1], t.args[2]
		t.k0 = a.k0 & b.k0
		t.k1 = a.k1 & b.k1
		t.ulo, t.uhi = minU(a.ulo, b.ulo), maxU(a.uhi, b.uhi)
		t.slo, t.shi = minS(a.slo, b.slo), maxS(a.shi, b.shi)
	case OLin:
		// exact integer interval, then reduce if it fits
		lo := new(big.Int).SetUint64(t.c)
		hi := new(big.Int).SetUint64(t.c)
		slo := big.NewInt(signExt(t.c, w))
		shi := big.NewInt(signExt(t.c, w))
		tz := 64
		if t.c != 0 {
			tz = bits.TrailingZeros64(t.c)
		}
		for i, a := range t.args {
			cf := t.coefs[i]
			cu := new(big.Int).SetUint64(cf)
			lo.Add(lo, new(big.Int).Mul(cu, new(big.Int).SetUint64(a.ulo)))
			hi.Add(hi, new(big.Int).Mul(cu, new(big.Int).SetUint64(a.uhi)))
			cs := big.NewInt(signExt(cf, w))
			x := new(big.Int).Mul(cs, big.NewInt(a.slo))
			y := new(big.Int).Mul(cs, big.NewInt(a.shi))
			if x.Cmp(y) > 0 {
				x, y = y, x
			}
			slo.Add(slo, x)
			shi.Add(shi, y)
			z := bits.TrailingZeros64(cf) + bits.TrailingZeros64(^a.k0)
			if z < tz {
				tz = z
			}
		}
		if tz > 0 && tz < 64 {
			t.k0 |= (uint64(1)<<uint(tz) - 1) & m
		}
		mm := new(big.Int).SetUint64(m)
		if hi.Cmp(mm) <= 0 {
			t.ulo, t.uhi = lo.Uint64(), hi.Uint64()
		}
		minS64 := big.NewInt(t.slo)
		maxS64 := big.NewInt(t.shi)
		if slo.Cmp(minS64) >= 0 && shi.Cmp(maxS64) <= 0 {
			t.slo, t.shi = slo.Int64(), shi.Int64()
		}
	case OMul:
		a, b := t.args[0], t.args[1]
		h, l := bits.Mul64(a.uhi, b.uhi)
		if h == 0 && l <= m {
			t.uhi = l
			t.ulo = a.ulo * b.ulo
		}
	case OUdiv:
		a, b := t.args[0], t.args[1]
		if b.ulo > 0 {
			t.uhi = a.uhi / b.ulo
			t.ulo = a.ulo / b.uhi
		}
	case OUrem:
		a, b := t.args[0], t.args[1]
		t.uhi = a.uhi
		if b.ulo > 0 && b.uhi-1 < t.uhi {
			t.uhi = b.uhi - 1
		}
	case OLshr:
		t.uhi = t.args[0].uhi
	case OSext:
		a := t.args[0]
		t.slo, t.shi = a.slo, a.shi
	case OSdiv:
		a, b := t.args[0], t.args[1]
		if b.IsConst() && signExt(b.c, w) > 0 {
			d := signExt(b.c, w)
			t.slo, t.shi = a.slo/d, a.shi/d
		}
	case OSrem:
		b := t.args[1]
		if b.IsConst() && signExt(b.c, w) > 0 {
			d := signExt(b.c, w)
			t.slo, t.shi = -(d - 1), d-1
			if t.args[0].slo >= 0 {
				t.slo = 0
			}
		}
	}
	c.tighten(t)
}

func (c *TermCtx) tighten(t *Term) {
	w := t.w
	m := maskW(w)
	if t.k1 > t.ulo {
		t.ulo = t.k1
	}
	if v := ^t.k0 & m; v < t.uhi {
		t.uhi = v
	}
	half := m >> 1
	if t.uhi <= half {
		if int64(t.ulo) > t.slo {
			t.slo = int64(t.ulo)
		}
		if int64(t.uhi) < t.shi {
			t.shi = int64(t.uhi)
		}
	} else if t.ulo > half {
		if s := signExt(t.ulo, w); s > t.slo {
			t.slo = s
		}
		if s := signExt(t.uhi, w); s < t.shi {
			t.shi = s
		}
	}
	if t.slo >= 0 {
		if uint64(t.slo) > t.ulo {
			t.ulo = uint64(t.slo)
		}
		if uint64(t.shi) < t.uhi {
			t.uhi = uint64(t.shi)
		}
	}
	// leading zeros from range
	if t.uhi < m {
		n := bits.Len64(t.uhi)
		if n < 64 {
			t.k0 |= m &^ (uint64(1)<<uint(n) - 1)
		}
	}
}

func minU(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}
func maxU(a, b uint64) uint64 {
	if a > b {
		return a
	}
	return b
}
func minS(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func maxS(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// ---------- booleans

func (c *TermCtx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.Bool(a.c == 0)
	}
	if a.op == OBNot {
		return a.args[0]
	}
	return c.mk(OBNot, WBool, 0, nil, a)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.op == OConst {
		if a.c == 1 {
			return b
		}
		return a
	}
	if b.op == OConst {
		if b.c == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OBAnd, WBool, 0, nil, a, b)
}
func (c *TermCtx) Or(a, b *Term) *Term { return c.Not(c.And(c.Not(a), c.Not(b))) }
func (c *TermCtx) Implies(a, b *Term) *Term {
	return c.Or(c.Not(a), b)
}

// bitAtom: if cond is eq(bit,1) (possibly via 1-bit) return that bit term, neg
func (c *TermCtx) asBit(cond *Term) (*Term, bool) {
	neg := false
	if cond.op == OBNot {
		neg = true
		cond = cond.args[0]
	}
	if cond.op == OEq && cond.args[0].w == 1 {
		x, y := cond.args[0], cond.args[1]
		if y.IsConst() {
			x, y = y, x
		}
		if x.IsConst() {
			b := y
			if (x.c == 0) != neg {
				b = c.Xor(b, c.Const(1, 1))
			}
			return b, true
		}
	}
	return nil, false
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		if isFP(a.w) {
			panic("Eq on fp")
		}
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d: %s %s", a.w, b.w, c.Str(a), c.Str(b)))
	}
	if a.w == WBool {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.c == 1 {
				return a
			}
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
		// bit-level
		if x, ok := c.asBit(a); ok {
			if y, ok := c.asBit(b); ok {
				return c.Eq(x, y)
			}
		}
		neg := false
		if a.op == OBNot {
			a = a.args[0]
			neg = !neg
		}
		if b.op == OBNot {
			b = b.args[0]
			neg = !neg
		}
		if a.id > b.id {
			a, b = b, a
		}
		r := c.mk(OEq, WBool, 0, nil, a, b)
		if neg {
			return c.Not(r)
		}
		return r
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.c == b.c)
	}
	if a.uhi < b.ulo || b.uhi < a.ulo || (a.k0&b.k1) != 0 || (a.k1&b.k0) != 0 || a.shi < b.slo || b.shi < a.slo {
		return c.False
	}
	if a.IsConst() {
		a, b = b, a
	}
	w := a.w
	if a.op == OConcat || b.op == OConcat {
		// split at boundaries
		r := c.True
		for _, p := range c.boundaries(a, b) {
			r = c.And(r, c.Eq(c.Extract(a, p[0], p[1]), c.Extract(b, p[0], p[1])))
			if r.IsFalse() {
				return r
			}
		}
		return r
	}
	if w == 1 {
		if !b.IsConst() {
			return c.Eq(c.Xor(a, b), c.Const(1, 0))
		}
		if a.op == OIte && a.args[1].IsConst() && a.args[2].IsConst() {
			return c.Eq(a.args[0], c.Bool(a.args[1].c == b.c))
		}
		if a.op == OXor && a.c == 1 {
			a = c.Xor(a, c.Const(1, 1))
			b = c.Const(1, 1-b.c)
		}
		r := c.mk(OEq, WBool, 0, nil, a, c.Const(1, 1))
		if b.c == 0 {
			return c.Not(r)
		}
		return r
	}
	// linear
	if a.op == OLin || b.op == OLin {
		d := c.Sub(a, b)
		if d.IsConst() {
			return c.Bool(d.c == 0)
		}
		if d.op == OLin && len(d.args) == 1 && (d.coefs[0] == 1 || d.coefs[0] == maskW(w)) {
			k := -d.c
			if d.coefs[0] != 1 {
				k = d.c
			}
			return c.Eq(d.args[0], c.Const(w, k))
		}
	}
	if a.op == OXor && b.IsConst() && b.c != 0 {
		return c.Eq(c.Xor(a, b), c.Const(w, 0))
	}
	if a.op == OXor && b.IsConst() && b.c == 0 && len(a.args) == 1 {
		return c.Eq(a.args[0], c.Const(w, a.c))
	}
	if (a.op == OXor || b.op == OXor) && !b.IsConst() {
		return c.Eq(c.Xor(a, b), c.Const(w, 0))
	}
	if a.op == OXor && b.IsConst() && a.c == 0 && b.c == 0 && len(a.args) == 2 {
		x, y := a.args[0], a.args[1]
		if x.id > y.id {
			x, y = y, x
		}
		return c.mk(OEq, WBool, 0, nil, x, y)
	}
	if a.op == OIte && b.IsConst() {
		x, y := a.args[1], a.args[2]
		if x.IsConst() || y.IsConst() {
			ex, ey := c.Eq(x, b), c.Eq(y, b)
			return c.IteB(a.args[0], ex, ey)
		}
	}
	if a.op == OSext && b.IsConst() {
		x := a.args[0]
		if signExt(b.c, b.w) < x.slo || signExt(b.c, b.w) > x.shi {
			return c.False
		}
		return c.Eq(x, c.Const(x.w, b.c))
	}
	if a.op == OSext && b.op == OSext && a.args[0].w == b.args[0].w {
		return c.Eq(a.args[0], b.args[0])
	}
	// injective conversions
	if a.op == OF2U && a.args[0].op == OU2F {
		// handled by F2U simplification
	}
	if b.id < a.id {
		a, b = b, a
	}
	if a.IsConst() {
		a, b = b, a
	}
	return c.mk(OEq, WBool, 0, nil, a, b)
}

func (c *TermCtx) IteB(cond, a, b *Term) *Term {
	if cond.IsConst() {
		if cond.c == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.IsTrue() {
		return c.Or(cond, b)
	}
	if a.IsFalse() {
		return c.And(c.Not(cond), b)
	}
	if b.IsTrue() {
		return c.Or(c.Not(cond), a)
	}
	if b.IsFalse() {
		return c.And(cond, a)
	}
	if cond.op == OBNot {
		return c.IteB(cond.args[0], b, a)
	}
	return c.mk(OIte, WBool, 0, nil, cond, a, b)
}

// boundaries returns [hi,lo] pieces, msb first, splitting at concat boundaries
// and known-constant runs are not split here.
func (c *TermCtx) cuts(a *Term, set *uint64) {
	// bit i set => cut between bit i and i-1 (i.e. a piece starts at lo=i)
	if a.op == OConcat {
		pos := a.w
		for _, p := range a.args {
			pos -= p.w
			if pos > 0 {
				*set |= 1 << uint(pos)
			}
		}
	}
}

func piecesFrom(set uint64, w int) [][2]int {
	var r [][2]int
	hi := w - 1
	for i := w - 1; i >= 0; i-- {
		if i == 0 || set&(1<<uint(i)) != 0 {
			r = append(r, [2]int{hi, i})
			hi = i - 1
		}
	}
	return r
}

func (c *TermCtx) boundaries(ts ...*Term) [][2]int {
	var set uint64
	for _, t := range ts {
		c.cuts(t, &set)
	}
	return piecesFrom(set, ts[0].w)
}

// knownCuts adds cuts wherever the "known" category changes.
func knownCuts(set *uint64, w int, masks ...uint64) {
	for _, m := range masks {
		d := m ^ (m << 1)
		*set |= d & maskW(w) &^ 1
	}
}

func (c *TermCtx) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if w <= 0 || hi >= a.w {
		panic("bad extract")
	}
	m := maskW(w)
	if a.op == OConst {
		return c.Const(w, a.c>>uint(lo))
	}
	if ((a.k0|a.k1)>>uint(lo))&m == m {
		return c.Const(w, a.k1>>uint(lo))
	}
	switch a.op {
	case OExtract:
		l := a.exLo()
		return c.Extract(a.args[0], hi+l, lo+l)
	case OConcat:
		pos := a.w
		var parts []*Term
		for _, p := range a.args {
			phi := pos - 1
			pos -= p.w
			plo := pos
			if phi < lo || plo > hi {
				continue
			}
			h, l := phi, plo
			if h > hi {
				h = hi
			}
			if l < lo {
				l = lo
			}
			parts = append(parts, c.Extract(p, h-plo, l-plo))
		}
		return c.Concat(parts...)
	case OXor:
		r := c.Const(w, a.c>>uint(lo))
		xs := make([]*Term, 0, len(a.args))
		for _, x := range a.args {
			xs = append(xs, c.Extract(x, hi, lo))
		}
		return c.XorN(r, xs)
	case OAnd:
		return c.BAnd(c.Extract(a.args[0], hi, lo), c.Extract(a.args[1], hi, lo))
	case OOr:
		return c.BOr(c.Extract(a.args[0], hi, lo), c.Extract(a.args[1], hi, lo))
	case OIte:
		return c.Ite(a.args[0], c.Extract(a.args[1], hi, lo), c.Extract(a.args[2], hi, lo))
	case OLin:
		if lo == 0 {
			r := c.Const(w, a.c)
			for i, x := range a.args {
				r = c.Add(r, c.Mul(c.Const(w, a.coefs[i]), c.Extract(x, hi, 0)))
			}
			return r
		}
	case OMul:
		if lo == 0 {
			return c.Mul(c.Extract(a.args[0], hi, 0), c.Extract(a.args[1], hi, 0))
		}
	case OSext:
		x := a.args[0]
		if hi < x.w {
			return c.Extract(x, hi, lo)
		}
		if lo == 0 {
			return c.Sext(x, w)
		}
		if lo >= x.w-1 {
			s := c.Extract(x, x.w-1, x.w-1)
			return c.Sext(s, w)
		}
		if lo < x.w {
			return c.Sext(c.Extract(x, x.w-1, lo), w)
		}
	case OUrem, OUdiv:
		// narrow if the value fits
	}
	return c.mk(OExtract, w, uint64(hi)<<8|uint64(lo), nil, a)
}

func (c *TermCtx) Concat(parts ...*Term) *Term {
	var fl []*Term
	for _, p := range parts {
		if p.op == OConcat {
			fl = append(fl, p.args...)
		} else {
			fl = append(fl, p)
		}
	}
	var out []*Term
	for _, p := range fl {
		if len(out) > 0 {
			q := out[len(out)-1]
			if q.IsConst() && p.IsConst() {
				out[len(out)-1] = c.Const(q.w+p.w, q.c<<uint(p.w)|p.c)
				continue
			}
			// adjacent extracts of the same term
			qb, qh, ql := slice(q)
			pb, ph, pl := slice(p)
			if qb == pb && ql == ph+1 && !q.IsConst() {
				out[len(out)-1] = c.Extract(qb, qh, pl)
				// result might itself need flattening; Extract of non-concat is fine
				continue
			}
		}
		out = append(out, p)
	}
	// merged extracts may yield concats; flatten once more if needed
	for _, p := range out {
		if p.op == OConcat {
			return c.Concat(out...)
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, p := range out {
		w += p.w
	}
	if w > 64 {
		panic("concat too wide")
	}
	return c.mk(OConcat, w, 0, nil, out...)
}

func slice(t *Term) (*Term, int, int) {
	if t.op == OExtract {
		return t.args[0], t.exHi(), t.exLo()
	}
	return t, t.w - 1, 0
}

func (c *TermCtx) Zext(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return c.Extract(a, w-1, 0)
	}
	return c.Concat(c.Const(w-a.w, 0), a)
}

func (c *TermCtx) Sext(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if a.IsConst() {
		return c.Const(w, uint64(signExt(a.c, a.w)))
	}
	if a.k0>>uint(a.w-1)&1 == 1 {
		return c.Zext(a, w)
	}
	if a.op == OSext {
		return c.Sext(a.args[0], w)
	}
	if a.op == OIte && a.args[1].IsConst() && a.args[2].IsConst() {
		return c.Ite(a.args[0], c.Sext(a.args[1], w), c.Sext(a.args[2], w))
	}
	return c.mk(OSext, w, 0, nil, a)
}

// ---------- bitwise

func (c *TermCtx) bitwise(a, b *Term, f func(x, y *Term) *Term) *Term {
	w := a.w
	var set uint64
	c.cuts(a, &set)
	c.cuts(b, &set)
	knownCuts(&set, w, a.k0, a.k1, b.k0, b.k1)
	ps := piecesFrom(set, w)
	if len(ps) == 1 {
		return f(a, b)
	}
	parts := make([]*Term, 0, len(ps))
	for _, p := range ps {
		parts = append(parts, f(c.Extract(a, p[0], p[1]), c.Extract(b, p[0], p[1])))
	}
	return c.Concat(parts...)
}

func (c *TermCtx) BAnd(a, b *Term) *Term {
	if a.w != b.w {
		panic("BAnd width")
	}
	if b.IsConst() && b.c == maskW(b.w) {
		return a
	}
	if a.IsConst() && a.c == maskW(a.w) {
		return b
	}
	return c.bitwise(a, b, func(x, y *Term) *Term {
		m := maskW(x.w)
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() {
			if x.IsConst() {
				return c.Const(x.w, x.c&y.c)
			}
			if y.c == 0 {
				return y
			}
			if y.c == m {
				return x
			}
		}
		if x == y {
			return x
		}
		if x.id > y.id {
			x, y = y, x
		}
		return c.mk(OAnd, x.w, 0, nil, x, y)
	})
}
func (c *TermCtx) BOr(a, b *Term) *Term {
	if a.w != b.w {
		panic("BOr width")
	}
	if b.IsConst() && b.c == 0 {
		return a
	}
	if a.IsConst() && a.c == 0 {
		return b
	}
	return c.bitwise(a, b, func(x, y *Term) *Term {
		m := maskW(x.w)
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() {
			if x.IsConst() {
				return c.Const(x.w, x.c|y.c)
			}
			if y.c == 0 {
				return x
			}
			if y.c == m {
				return y
			}
		}
		if x == y {
			return x
		}
		if x.id > y.id {
			x, y = y, x
		}
		return c.mk(OOr, x.w, 0, nil, x, y)
	})
}
func (c *TermCtx) Xor(a, b *Term) *Term {
	if a.w != b.w {
		panic("Xor width")
	}
	if b.IsConst() && b.c == 0 {
		return a
	}
	if a.IsConst() && a.c == 0 {
		return b
	}
	if a == b {
		return c.Const(a.w, 0)
	}
	return c.bitwise(a, b, func(x, y *Term) *Term {
		return c.XorN(c.Const(x.w, 0), []*Term{x, y})
	})
}
func (c *TermCtx) BNot(a *Term) *Term { return c.Xor(a, c.Const(a.w, maskW(a.w))) }

// XorN: xor of a constant and terms of equal width. The arguments of an OXor are sorted by id and
// distinct, so two normal forms are added by a merge.
func (c *TermCtx) XorN(k *Term, xs []*Term) *Term {
	w := k.w
	cst := k.c
	var acc []*Term
	sorted, owned := true, false
	for i, x := range xs {
		switch {
		case x.op == OConst || x.op == OXor:
		case i > 0 && len(acc) > 0 && acc[len(acc)-1].id >= x.id:
			sorted = false
		}
		switch x.op {
		case OConst:
			cst ^= x.c
		case OXor:
			cst ^= x.c
			if !sorted {
				acc = xorSort(acc)
				sorted = true
			}
			acc, owned = xorMerge(acc, x.args), false
		default:
			if !owned {
				acc = append(make([]*Term, 0, len(acc)+len(xs)-i), acc...)
				owned = true
			}
			acc = append(acc, x)
		}
	}
	if !sorted {
		acc = xorSort(acc)
	}
	split := false
	for _, t := range acc {
		if t.op == OConcat {
			split = true
			break
		}
	}
	if split {
		r := c.Const(w, cst)
		for _, t := range acc {
			r = c.Xor(r, t)
		}
		return r
	}
	if len(acc) == 0 {
		return c.Const(w, cst)
	}
	if len(acc) == 1 && cst == 0 {
		return acc[0]
	}
	return c.mk(OXor, w, cst, nil, acc...)
}

// xorSort sorts by id and cancels equal pairs.
func xorSort(as []*Term) []*Term {
	as = append([]*Term(nil), as...)
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	out := as[:0]
	for _, t := range as {
		if n := len(out); n > 0 && out[n-1] == t {
			out = out[:n-1]
		} else {
			out = append(out, t)
		}
	}
	return out
}

// xorMerge adds two sorted lists of distinct terms; the result is fresh unless one is empty.
func xorMerge(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			i++
			j++
		case a[i].id < b[j].id:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	return append(out, b[j:]...)
}

// ---------- ite

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond.IsConst() {
		if cond.c == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == WBool {
		return c.IteB(cond, a, b)
	}
	if isFP(a.w) {
		return c.mk(OIte, a.w, 0, nil, cond, a, b)
	}
	if cond.op == OBNot {
		return c.Ite(cond.args[0], b, a)
	}
	if bit, ok := c.asBit(cond); ok {
		d := c.Xor(a, b)
		if d.IsConst() {
			// b ^ (bit ? d : 0)
			var parts []*Term
			for i := a.w - 1; i >= 0; i-- {
				if d.c>>uint(i)&1 == 1 {
					parts = append(parts, bit)
				} else {
					parts = append(parts, c.Const(1, 0))
				}
			}
			return c.Xor(b, c.Concat(parts...))
		}
	}
	w := a.w
	var set uint64
	same := (a.k0 & b.k0) | (a.k1 & b.k1)
	knownCuts(&set, w, same)
	c.cuts(a, &set)
	c.cuts(b, &set)
	ps := piecesFrom(set, w)
	if len(ps) > 1 {
		var parts []*Term
		useful := false
		for _, p := range ps {
			x, y := c.Extract(a, p[0], p[1]), c.Extract(b, p[0], p[1])
			if x == y {
				useful = true
			}
			parts = append(parts, nil)
			_ = x
		}
		if useful {
			parts = parts[:0]
			for _, p := range ps {
				x, y := c.Extract(a, p[0], p[1]), c.Extract(b, p[0], p[1])
				if x == y {
					parts = append(parts, x)
				} else {
					parts = append(parts, c.Ite(cond, x, y))
				}
			}
			return c.Concat(parts...)
		}
	}
	return c.mk(OIte, w, 0, nil, cond, a, b)
}

// ---------- arithmetic

func (c *TermCtx) linParts(t *Term) (uint64, []uint64, []*Term) {
	switch t.op {
	case OConst:
		return t.c, nil, nil
	case OLin:
		return t.c, t.coefs, t.args
	}
	// a shifted value concat(x, 0...) = x*2^k when no bits are lost: keep as atom
	return 0, []uint64{1}, []*Term{t}
}

func (c *TermCtx) lin(w int, k uint64, coefs []uint64, args []*Term) *Term {
	m := maskW(w)
	k &= m
	type ent struct {
		t *Term
		c uint64
	}
	var es []ent
	idx := map[*Term]int{}
	for i, a := range args {
		if j, ok := idx[a]; ok {
			es[j].c += coefs[i]
		} else {
			idx[a] = len(es)
			es = append(es, ent{a, coefs[i]})
		}
	}
	out := es[:0]
	for _, e := range es {
		e.c &= m
		if e.c != 0 {
			out = append(out, e)
		}
	}
	if len(out) == 0 {
		return c.Const(w, k)
	}
	if len(out) == 1 && out[0].c == 1 && k == 0 {
		return out[0].t
	}
	sort.Slice(out, func(i, j int) bool { return out[i].t.id < out[j].t.id })
	// power of two multiple alone: shift
	if len(out) == 1 && k == 0 && bits.OnesCount64(out[0].c) == 1 {
		s := bits.TrailingZeros64(out[0].c)
		return c.ShlC(out[0].t, s)
	}
	var cs []uint64
	var as []*Term
	for _, e := range out {
		cs = append(cs, e.c)
		as = append(as, e.t)
	}
	return c.mk(OLin, w, k, cs, as...)
}

func (c *TermCtx) Add(a, b *Term) *Term {
	if a.w != b.w {
		panic("Add width")
	}
	if a.IsConst() && b.IsConst() {
		return c.Const(a.w, a.c+b.c)
	}
	if b.IsConst() && b.c == 0 {
		return a
	}
	if a.IsConst() && a.c == 0 {
		return b
	}
	m := maskW(a.w)
	if (a.k0|b.k0)&m == m {
		return c.BOr(a, b)
	}
	k1, c1, a1 := c.linParts(a)
	k2, c2, a2 := c.linParts(b)
	cs := append(append([]uint64(nil), c1...), c2...)
	as := append(append([]*Term(nil), a1...), a2...)
	return c.lin(a.w, k1+k2, cs, as)
}
func (c *TermCtx) Neg(a *Term) *Term {
	return c.Mul(c.Const(a.w, ^uint64(0)), a)
}
func (c *TermCtx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Const(a.w, 0)
	}
	if a.IsConst() && b.IsConst() {
		return c.Const(a.w, a.c-b.c)
	}
	if b.IsConst() && b.c == 0 {
		return a
	}
	if b.IsConst() && b.c&^a.k1 == 0 {
		return c.Xor(a, b) // no borrow
	}
	return c.Add(a, c.Neg(b))
}
func (c *TermCtx) Mul(a, b *Term) *Term {
	if a.w != b.w {
		panic("Mul width")
	}
	if b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		if b.IsConst() {
			return c.Const(a.w, a.c*b.c)
		}
		if a.c == 0 {
			return a
		}
		if a.c == 1 {
			return b
		}
		if bits.OnesCount64(a.c) == 1 && b.op != OLin {
			return c.ShlC(b, bits.TrailingZeros64(a.c))
		}
		k, cs, as := c.linParts(b)
		n := make([]uint64, len(cs))
		for i := range cs {
			n[i] = cs[i] * a.c
		}
		return c.lin(a.w, k*a.c, n, as)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OMul, a.w, 0, nil, a, b)
}

func (c *TermCtx) linNoWrapU(t *Term) bool {
	if t.op != OLin {
		return false
	}
	hi := new(big.Int).SetUint64(t.c)
	for i, a := range t.args {
		hi.Add(hi, new(big.Int).Mul(new(big.Int).SetUint64(t.coefs[i]), new(big.Int).SetUint64(a.uhi)))
	}
	return hi.Cmp(new(big.Int).SetUint64(maskW(t.w))) <= 0
}

func (c *TermCtx) Udiv(a, b *Term) *Term {
	w := a.w
	if b.IsConst() && b.c != 0 {
		if a.IsConst() {
			return c.Const(w, a.c/b.c)
		}
		if bits.OnesCount64(b.c) == 1 {
			return c.LshrC(a, bits.TrailingZeros64(b.c))
		}
		if a.uhi < b.c {
			return c.Const(w, 0)
		}
		if c.linNoWrapU(a) {
			// (d*X + r)/d with r<d
			ok := a.c/b.c*b.c <= a.c
			var cs []uint64
			for _, cf := range a.coefs {
				if cf%b.c != 0 {
					ok = false
					break
				}
				cs = append(cs, cf/b.c)
			}
			if ok {
				return c.lin(w, a.c/b.c, cs, a.args)
			}
		}
		// narrow
		if n := bits.Len64(maxU(a.uhi, b.c)); n < w {
			return c.Zext(c.mk(OUdiv, n, 0, nil, c.Extract(a, n-1, 0), c.Const(n, b.c)), w)
		}
	}
	return c.mk(OUdiv, w, 0, nil, a, b)
}
func (c *TermCtx) Urem(a, b *Term) *Term {
	w := a.w
	if b.IsConst() && b.c != 0 {
		if a.IsConst() {
			return c.Const(w, a.c%b.c)
		}
		if bits.OnesCount64(b.c) == 1 {
			s := bits.TrailingZeros64(b.c)
			if s == 0 {
				return c.Const(w, 0)
			}
			return c.Zext(c.Extract(a, s-1, 0), w)
		}
		if a.uhi < b.c {
			return a
		}
		if c.linNoWrapU(a) {
			ok := true
			for _, cf := range a.coefs {
				if cf%b.c != 0 {
					ok = false
				}
			}
			if ok {
				return c.Const(w, a.c%b.c)
			}
		}
		if n := bits.Len64(maxU(a.uhi, b.c)); n < w {
			return c.Zext(c.mk(OUrem, n, 0, nil, c.Extract(a, n-1, 0), c.Const(n, b.c)), w)
		}
	}
	return c.mk(OUrem, w, 0, nil, a, b)
}
func (c *TermCtx) Sdiv(a, b *Term) *Term {
	w := a.w
	if a.IsConst() && b.IsConst() && b.c != 0 {
		return c.Const(w, uint64(signExt(a.c, w)/signExt(b.c, w)))
	}
	if a.slo >= 0 && b.slo >= 0 {
		return c.Udiv(a, b)
	}
	return c.mk(OSdiv, w, 0, nil, a, b)
}
func (c *TermCtx) Srem(a, b *Term) *Term {
	w := a.w
	if a.IsConst() && b.IsConst() && b.c != 0 {
		return c.Const(w, uint64(signExt(a.c, w)%signExt(b.c, w)))
	}
	if a.slo >= 0 && b.slo >= 0 {
		return c.Urem(a, b)
	}
	return c.mk(OSrem, w, 0, nil, a, b)
}

func (c *TermCtx) ShlC(a *Term, s int) *Term {
	if s == 0 {
		return a
	}
	if s >= a.w {
		return c.Const(a.w, 0)
	}
	if a.op == OLin {
		cs := make([]uint64, len(a.coefs))
		for i := range cs {
			cs[i] = a.coefs[i] << uint(s)
		}
		// keep linear form only when it has several parts
		if len(a.args) > 1 || a.c != 0 {
			return c.lin(a.w, a.c<<uint(s), cs, a.args)
		}
	}
	return c.Concat(c.Extract(a, a.w-1-s, 0), c.Const(s, 0))
}
func (c *TermCtx) LshrC(a *Term, s int) *Term {
	if s == 0 {
		return a
	}
	if s >= a.w {
		return c.Const(a.w, 0)
	}
	return c.Zext(c.Extract(a, a.w-1, s), a.w)
}
func (c *TermCtx) AshrC(a *Term, s int) *Term {
	if s == 0 {
		return a
	}
	if s >= a.w {
		s = a.w - 1
	}
	return c.Sext(c.Extract(a, a.w-1, s), a.w)
}

// shift amounts are terms of any width; semantics follow Go (>= width gives 0/sign)
func (c *TermCtx) shiftSym(op Op, a, s *Term) *Term {
	w := a.w
	if s.IsConst() {
		n := int(minU(s.c, 64))
		switch op {
		case OShl:
			return c.ShlC(a, n)
		case OLshr:
			return c.LshrC(a, n)
		default:
			return c.AshrC(a, n)
		}
	}
	if int(minU(s.uhi, 64)) <= 64 && s.uhi-s.ulo <= 64 {
		// enumerate amounts
		r := c.shiftSym(op, a, c.Const(s.w, s.uhi))
		for v := s.uhi; v > s.ulo; v-- {
			r = c.Ite(c.Eq(s, c.Const(s.w, v-1)), c.shiftSym(op, a, c.Const(s.w, v-1)), r)
		}
		return r
	}
	// clamp: enumerate 0..w
	r := c.shiftSym(op, a, c.Const(s.w, maskW(s.w)))
	for v := 0; v < w && uint64(v) <= s.uhi; v++ {
		r = c.Ite(c.Eq(s, c.Const(s.w, uint64(v))), c.shiftSym(op, a, c.Const(s.w, uint64(v))), r)
	}
	return r
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a.w != b.w {
		panic("Ult width")
	}
	if a == b {
		return c.False
	}
	if a.uhi < b.ulo {
		return c.True
	}
	if a.ulo >= b.uhi {
		return c.False
	}
	if b.IsConst() && b.c == 1 {
		return c.Eq(a, c.Const(a.w, 0))
	}
	if a.IsConst() && a.c == 0 {
		return c.Not(c.Eq(b, a))
	}
	w := a.w
	// strip equal top pieces
	if a.op == OConcat || b.op == OConcat {
		ps := c.boundaries(a, b)
		if len(ps) > 1 {
			top := ps[0]
			x, y := c.Extract(a, top[0], top[1]), c.Extract(b, top[0], top[1])
			if x == y {
				return c.Ult(c.Extract(a, top[1]-1, 0), c.Extract(b, top[1]-1, 0))
			}
			// strip equal low pieces when b/a trailing zero constants equal
			low := ps[len(ps)-1]
			x, y = c.Extract(a, low[0], low[1]), c.Extract(b, low[0], low[1])
			if x == y {
				return c.Ult(c.Extract(a, w-1, low[0]+1), c.Extract(b, w-1, low[0]+1))
			}
		}
	}
	// narrow by known leading zeros
	n := bits.Len64(maxU(a.uhi, b.uhi))
	if n < w && n > 0 {
		return c.Ult(c.Extract(a, n-1, 0), c.Extract(b, n-1, 0))
	}
	if a.op == OIte && b.IsConst() && a.args[1].IsConst() && a.args[2].IsConst() {
		return c.IteB(a.args[0], c.Ult(a.args[1], b), c.Ult(a.args[2], b))
	}
	if b.op == OIte && a.IsConst() && b.args[1].IsConst() && b.args[2].IsConst() {
		return c.IteB(b.args[0], c.Ult(a, b.args[1]), c.Ult(a, b.args[2]))
	}
	// x + c < d with no wrap
	if a.op == OLin && b.IsConst() && len(a.args) == 1 && a.coefs[0] == 1 && c.linNoWrapU(a) && b.c >= a.c {
		return c.Ult(a.args[0], c.Const(w, b.c-a.c))
	}
	if b.op == OLin && a.IsConst() && len(b.args) == 1 && b.coefs[0] == 1 && c.linNoWrapU(b) && a.c >= b.c {
		return c.Ult(c.Const(w, a.c-b.c), b.args[0])
	}
	return c.mk(OUlt, WBool, 0, nil, a, b)
}
func (c *TermCtx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.shi < b.slo {
		return c.True
	}
	if a.slo >= b.shi {
		return c.False
	}
	if (a.slo >= 0 && b.slo >= 0) || (a.shi < 0 && b.shi < 0) {
		return c.Ult(a, b)
	}
	if a.op == OSext && b.op == OSext && a.args[0].w == b.args[0].w {
		return c.Slt(a.args[0], b.args[0])
	}
	// x + c < d, signed and exact
	if b.IsConst() && a.op == OLin && len(a.args) == 1 && a.coefs[0] == 1 {
		x := a.args[0]
		k := signExt(a.c, a.w)
		d := signExt(b.c, b.w)
		lo, hi := big.NewInt(x.slo), big.NewInt(x.shi)
		lo.Add(lo, big.NewInt(k))
		hi.Add(hi, big.NewInt(k))
		mn, mx := big.NewInt(signExt(uint64(1)<<uint(a.w-1), a.w)), big.NewInt(int64(maskW(a.w)>>1))
		nd := new(big.Int).Sub(big.NewInt(d), big.NewInt(k))
		if lo.Cmp(mn) >= 0 && hi.Cmp(mx) <= 0 && nd.Cmp(mn) >= 0 && nd.Cmp(mx) <= 0 {
			return c.Slt(x, c.Const(a.w, uint64(nd.Int64())))
		}
	}
	return c.mk(OSlt, WBool, 0, nil, a, b)
}
func (c *TermCtx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// ---------- floating point

func (c *TermCtx) fconst(w int, f float64) *Term {
	if w == WF32 {
		return c.Const(WF32, uint64(math.Float32bits(float32(f))))
	}
	return c.F64(f)
}

func (c *TermCtx) FBin(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		x, y := a.F(), b.F()
		var r float64
		switch op {
		case OFAdd:
			r = x + y
		case OFSub:
			r = x - y
		case OFMul:
			r = x * y
		case OFDiv:
			r = x / y
		}
		if a.w == WF32 {
			switch op {
			case OFAdd:
				return c.fconst(WF32, float64(float32(x)+float32(y)))
			case OFSub:
				return c.fconst(WF32, float64(float32(x)-float32(y)))
			case OFMul:
				return c.fconst(WF32, float64(float32(x)*float32(y)))
			case OFDiv:
				return c.fconst(WF32, float64(float32(x)/float32(y)))
			}
		}
		return c.F64(r)
	}
	isZ := func(t *Term) bool { return t.IsConst() && t.F() == 0 && !math.Signbit(t.F()) }
	nonNeg := func(t *Term) bool { return t.op == OU2F || (t.op == OS2F && t.args[0].slo >= 0) }
	if op == OFAdd {
		if isZ(a) && nonNeg(b) {
			return b
		}
		if isZ(b) && nonNeg(a) {
			return a
		}
	}
	if (op == OFMul || op == OFDiv) && b.IsConst() && b.F() == 1 {
		return a
	}
	if (op == OFMul) && a.IsConst() && a.F() == 1 {
		return b
	}
	if (op == OFAdd || op == OFMul) && a.id > b.id {
		a, b = b, a
	}
	return c.mk(op, a.w, 0, nil, a, b)
}
func (c *TermCtx) FNeg(a *Term) *Term {
	if a.IsConst() {
		return c.fconst(a.w, -a.F())
	}
	if a.op == OFNeg {
		return a.args[0]
	}
	return c.mk(OFNeg, a.w, 0, nil, a)
}
func (c *TermCtx) FEq(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.F() == b.F())
	}
	if a == b && c.fpNotNaN(a) {
		return c.True
	}
	if a.op == OFNeg && b.op == OFNeg {
		return c.FEq(a.args[0], b.args[0])
	}
	if a.op == OU2F && b.op == OU2F && a.args[0].w == b.args[0].w && bits.Len64(a.args[0].uhi) <= 53 && bits.Len64(b.args[0].uhi) <= 53 && a.w == WF64 {
		return c.Eq(a.args[0], b.args[0])
	}
	if a.op == OIte {
		return c.IteB(a.args[0], c.FEq(a.args[1], b), c.FEq(a.args[2], b))
	}
	if b.op == OIte {
		return c.IteB(b.args[0], c.FEq(a, b.args[1]), c.FEq(a, b.args[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OFEq, WBool, 0, nil, a, b)
}

// fpNotNaN: structurally cannot be NaN
func (c *TermCtx) fpNotNaN(t *Term) bool {
	_, _, ok := fpRange(t)
	return ok
}

// fpRange returns a conservative enclosure (finite) or ok=false.
func fpRange(t *Term) (lo, hi float64, ok bool) {
	fin := func(lo, hi float64) (float64, float64, bool) {
		if math.IsNaN(lo) || math.IsNaN(hi) || math.IsInf(lo, 0) || math.IsInf(hi, 0) {
			return 0, 0, false
		}
		return lo, hi, true
	}
	down := func(x float64) float64 { return math.Nextafter(x, math.Inf(-1)) }
	up := func(x float64) float64 { return math.Nextafter(x, math.Inf(1)) }
	switch t.op {
	case OConst:
		return fin(t.F(), t.F())
	case OVar:
		if t.fset {
			return fin(t.flo, t.fhi)
		}
	case OU2F:
		return fin(down(float64(t.args[0].ulo)), up(float64(t.args[0].uhi)))
	case OS2F:
		return fin(down(float64(t.args[0].slo)), up(float64(t.args[0].shi)))
	case OFNeg:
		l, h, ok := fpRange(t.args[0])
		return -h, -l, ok
	case OIte:
		l1, h1, ok1 := fpRange(t.args[1])
		l2, h2, ok2 := fpRange(t.args[2])
		return math.Min(l1, l2), math.Max(h1, h2), ok1 && ok2
	case OFAdd, OFSub, OFMul, OFDiv:
		a, b, ok1 := fpRange(t.args[0])
		p, q, ok2 := fpRange(t.args[1])
		if !ok1 || !ok2 {
			return 0, 0, false
		}
		var vs []float64
		switch t.op {
		case OFAdd:
			vs = []float64{a + p, b + q}
		case OFSub:
			vs = []float64{a - q, b - p}
		case OFMul:
			vs = []float64{a * p, a * q, b * p, b * q}
		case OFDiv:
			if p <= 0 && q >= 0 {
				return 0, 0, false
			}
			vs = []float64{a / p, a / q, b / p, b / q}
		}
		lo, hi = vs[0], vs[0]
		for _, v := range vs {
			lo, hi = math.Min(lo, v), math.Max(hi, v)
		}
		if t.w == WF32 {
			lo, hi = lo-math.Abs(lo)*1e-6-1e-30, hi+math.Abs(hi)*1e-6+1e-30
		}
		return fin(down(lo), up(hi))
	case OF2F:
		l, h, ok := fpRange(t.args[0])
		return l - math.Abs(l)*1e-6 - 1e-30, h + math.Abs(h)*1e-6 + 1e-30, ok
	}
	return 0, 0, false
}

func (c *TermCtx) FLt(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.F() < b.F())
	}
	if a == b {
		return c.False
	}
	if l1, h1, ok := fpRange(a); ok {
		if l2, h2, ok := fpRange(b); ok {
			if h1 < l2 {
				return c.True
			}
			if l1 > h2 {
				return c.False
			}
		}
	}
	return c.mk(OFLt, WBool, 0, nil, a, b)
}
func (c *TermCtx) FLe(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.F() <= b.F())
	}
	if l1, h1, ok := fpRange(a); ok {
		if l2, h2, ok := fpRange(b); ok {
			if h1 < l2 {
				return c.True
			}
			if l1 > h2 {
				return c.False
			}
		}
	}
	return c.mk(OFLe, WBool, 0, nil, a, b)
}
func (c *TermCtx) ToF(a *Term, signed bool, w int) *Term {
	if a.IsConst() {
		if signed {
			if w == WF32 {
				return c.Const(WF32, uint64(math.Float32bits(float32(signExt(a.c, a.w)))))
			}
			return c.F64(float64(signExt(a.c, a.w)))
		}
		if w == WF32 {
			return c.Const(WF32, uint64(math.Float32bits(float32(a.c))))
		}
		return c.F64(float64(a.c))
	}
	if signed && a.slo >= 0 {
		signed = false
	}
	if !signed {
		// normalise width: strip leading zeros
		n := bits.Len64(a.uhi)
		if n == 0 {
			n = 1
		}
		if n < a.w {
			a = c.Extract(a, n-1, 0)
		}
		return c.mk(OU2F, w, 0, nil, a)
	}
	return c.mk(OS2F, w, 0, nil, a)
}

// FToInt: Go conversion float -> integer of width w (truncation). Out-of-range is implementation-specific.
func (c *TermCtx) FToInt(a *Term, w int, signed bool) *Term {
	if a.IsConst() {
		f := a.F()
		if signed {
			return c.Const(w, uint64(int64(f)))
		}
		if w == 64 {
			return c.Const(w, uint64(f))
		}
		return c.Const(w, uint64(int64(f))) // amd64: conversion via int64
	}
	if a.op == OU2F && a.w == WF64 && bits.Len64(a.args[0].uhi) <= 53 {
		return c.Zext(a.args[0], w)
	}
	if a.op == OS2F && a.w == WF64 && a.args[0].slo > -(1<<53) && a.args[0].shi < 1<<53 {
		return c.Sext(a.args[0], w)
	}
	if a.op == OIte {
		return c.Ite(a.args[0], c.FToInt(a.args[1], w, signed), c.FToInt(a.args[2], w, signed))
	}
	op := OF2U
	if signed {
		op = OF2S
	}
	// produce at 64 bits when value is known in range, then truncate (matches amd64)
	return c.mk(op, w, 0, nil, a)
}
func (c *TermCtx) FToF(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.IsConst() {
		return c.fconst(w, a.F())
	}
	return c.mk(OF2F, w, 0, nil, a)
}

// ---------- variables, evaluation, printing

func (c *TermCtx) Vars(t *Term) []int32 {
	if t.varsDone {
		return t.vars
	}
	var acc []int32
	for _, a := range t.args {
		v := c.Vars(a)
		if len(acc) == 0 {
			acc = v
		} else if len(v) > 0 {
			acc = mergeVars(acc, v)
		}
	}
	t.vars = acc
	t.varsDone = true
	return acc
}

func mergeVars(a, b []int32) []int32 {
	i, j := 0, 0
	// subset fast path
	sub := true
	for _, x := range b {
		for i < len(a) && a[i] < x {
			i++
		}
		if i >= len(a) || a[i] != x {
			sub = false
			break
		}
	}
	if sub {
		return a
	}
	i = 0
	r := make([]int32, 0, len(a)+len(b))
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

type Model map[int32]uint64 // var index -> value

type evaler struct {
	c    *TermCtx
	m    Model
	memo map[int]uint64
}

func (c *TermCtx) Eval(t *Term, m Model) uint64 {
	e := evaler{c, m, map[int]uint64{}}
	return e.ev(t)
}

func (e *evaler) ev(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OVar:
		return e.m[t.vars[0]]
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	v := e.ev1(t)
	if t.w > 0 && t.w <= 64 {
		v &= maskW(t.w)
	}
	e.memo[t.id] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (e *evaler) ff(t *Term) float64 {
	v := e.ev(t)
	if t.w == WF32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fbits(w int, f float64) uint64 {
	if w == WF32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func (e *evaler) ev1(t *Term) uint64 {
	a := t.args
	switch t.op {
	case OBNot:
		return 1 - e.ev(a[0])
	case OBAnd:
		return e.ev(a[0]) & e.ev(a[1])
	case OBOr:
		return e.ev(a[0]) | e.ev(a[1])
	case OEq:
		return b2u(e.ev(a[0]) == e.ev(a[1]))
	case OIte:
		if e.ev(a[0]) == 1 {
			return e.ev(a[1])
		}
		return e.ev(a[2])
	case OUlt:
		return b2u(e.ev(a[0]) < e.ev(a[1]))
	case OSlt:
		return b2u(signExt(e.ev(a[0]), a[0].w) < signExt(e.ev(a[1]), a[1].w))
	case OLin:
		r := t.c
		for i, x := range a {
			r += t.coefs[i] * e.ev(x)
		}
		return r
	case OMul:
		return e.ev(a[0]) * e.ev(a[1])
	case OUdiv:
		d := e.ev(a[1])
		if d == 0 {
			return ^uint64(0)
		}
		return e.ev(a[0]) / d
	case OUrem:
		d := e.ev(a[1])
		if d == 0 {
			return e.ev(a[0])
		}
		return e.ev(a[0]) % d
	case OSdiv:
		d := signExt(e.ev(a[1]), t.w)
		x := signExt(e.ev(a[0]), t.w)
		if d == 0 {
			return 0
		}
		return uint64(x / d)
	case OSrem:
		d := signExt(e.ev(a[1]), t.w)
		x := signExt(e.ev(a[0]), t.w)
		if d == 0 {
			return uint64(x)
		}
		return uint64(x % d)
	case OAnd:
		return e.ev(a[0]) & e.ev(a[1])
	case OOr:
		return e.ev(a[0]) | e.ev(a[1])
	case OXor:
		r := t.c
		for _, x := range a {
			r ^= e.ev(x)
		}
		return r
	case OConcat:
		var r uint64
		for _, x := range a {
			r = r<<uint(x.w) | e.ev(x)
		}
		return r
	case OExtract:
		return e.ev(a[0]) >> uint(t.exLo())
	case OSext:
		return uint64(signExt(e.ev(a[0]), a[0].w))
	case OU2F:
		if t.w == WF32 {
			return uint64(math.Float32bits(float32(e.ev(a[0]))))
		}
		return math.Float64bits(float64(e.ev(a[0])))
	case OS2F:
		if t.w == WF32 {
			return uint64(math.Float32bits(float32(signExt(e.ev(a[0]), a[0].w))))
		}
		return math.Float64bits(float64(signExt(e.ev(a[0]), a[0].w)))
	case OF2U:
		if t.w == 64 {
			return uint64(e.ff(a[0]))
		}
		return uint64(int64(e.ff(a[0])))
	case OF2S:
		return uint64(int64(e.ff(a[0])))
	case OFAdd:
		return fbits(t.w, e.ff(a[0])+e.ff(a[1]))
	case OFSub:
		return fbits(t.w, e.ff(a[0])-e.ff(a[1]))
	case OFMul:
		return fbits(t.w, e.ff(a[0])*e.ff(a[1]))
	case OFDiv:
		return fbits(t.w, e.ff(a[0])/e.ff(a[1]))
	case OFNeg:
		return fbits(t.w, -e.ff(a[0]))
	case OFEq:
		return b2u(e.ff(a[0]) == e.ff(a[1]))
	case OFLt:
		return b2u(e.ff(a[0]) < e.ff(a[1]))
	case OFLe:
		return b2u(e.ff(a[0]) <= e.ff(a[1]))
	case OF2F:
		return fbits(t.w, e.ff(a[0]))
	}
	panic(fmt.Sprintf("eval op %d", t.op))
}

func sortStr(w int) string {
	switch {
	case w == WBool:
		return "Bool"
	case w == WF64:
		return "(_ FloatingPoint 11 53)"
	case w == WF32:
		return "(_ FloatingPoint 8 24)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	switch {
	case t.w == WBool:
		if t.c == 1 {
			return "true"
		}
		return "false"
	case t.w == WF64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.c)
	case t.w == WF32:
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.c)
	}
	return fmt.Sprintf("(_ bv%d %d)", t.c, t.w)
}

// node prints t's top operator with args referenced by ref.
func (c *TermCtx) node(t *Term, ref func(*Term) string) string {
	var sb strings.Builder
	bin := func(name string) string {
		sb.WriteString("(" + name)
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(ref(a))
		}
		sb.WriteByte(')')
		return sb.String()
	}
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		return "|" + t.name + "|"
	case OBNot:
		return bin("not")
	case OBAnd:
		return bin("and")
	case OBOr:
		return bin("or")
	case OEq:
		return bin("=")
	case OIte:
		return bin("ite")
	case OUlt:
		return bin("bvult")
	case OSlt:
		return bin("bvslt")
	case OLin:
		var parts []string
		for i, a := range t.args {
			if t.coefs[i] == 1 {
				parts = append(parts, ref(a))
			} else {
				parts = append(parts, fmt.Sprintf("(bvmul (_ bv%d %d) %s)", t.coefs[i], t.w, ref(a)))
			}
		}
		if t.c != 0 {
			parts = append(parts, fmt.Sprintf("(_ bv%d %d)", t.c, t.w))
		}
		r := parts[0]
		for _, p := range parts[1:] {
			r = "(bvadd " + r + " " + p + ")"
		}
		return r
	case OMul:
		return bin("bvmul")
	case OUdiv:
		return bin("bvudiv")
	case OUrem:
		return bin("bvurem")
	case OSdiv:
		return bin("bvsdiv")
	case OSrem:
		return bin("bvsrem")
	case OAnd:
		return bin("bvand")
	case OOr:
		return bin("bvor")
	case OXor:
		r := ""
		if t.c != 0 {
			r = fmt.Sprintf("(_ bv%d %d)", t.c, t.w)
		}
		for _, a := range t.args {
			if r == "" {
				r = ref(a)
			} else {
				r = "(bvxor " + r + " " + ref(a) + ")"
			}
		}
		return r
	case OConcat:
		r := ref(t.args[0])
		for _, a := range t.args[1:] {
			r = "(concat " + r + " " + ref(a) + ")"
		}
		return r
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.exHi(), t.exLo(), ref(t.args[0]))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
	case OU2F:
		if t.w == WF32 {
			return fmt.Sprintf("((_ to_fp_unsigned 8 24) RNE %s)", ref(t.args[0]))
		}
		return fmt.Sprintf("((_ to_fp_unsigned 11 53) RNE %s)", ref(t.args[0]))
	case OS2F:
		if t.w == WF32 {
			return fmt.Sprintf("((_ to_fp 8 24) RNE %s)", ref(t.args[0]))
		}
		return fmt.Sprintf("((_ to_fp 11 53) RNE %s)", ref(t.args[0]))
	case OF2U:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, ref(t.args[0]))
	case OF2S:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, ref(t.args[0]))
	case OFAdd:
		return bin("fp.add RNE")
	case OFSub:
		return bin("fp.sub RNE")
	case OFMul:
		return bin("fp.mul RNE")
	case OFDiv:
		return bin("fp.div RNE")
	case OFNeg:
		return bin("fp.neg")
	case OFEq:
		return bin("fp.eq")
	case OFLt:
		return bin("fp.lt")
	case OFLe:
		return bin("fp.leq")
	case OF2F:
		if t.w == WF32 {
			return fmt.Sprintf("((_ to_fp 8 24) RNE %s)", ref(t.args[0]))
		}
		return fmt.Sprintf("((_ to_fp 11 53) RNE %s)", ref(t.args[0]))
	}
	panic("node")
}

func (c *TermCtx) Str(t *Term) string {
	if t.size > 300 {
		return fmt.Sprintf("<term#%d size %d>", t.id, t.size)
	}
	return c.node(t, func(a *Term) string { return c.Str(a) })
}
