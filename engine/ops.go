package main

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func poisonOf(vs ...Val) (Poison, bool) {
	for _, v := range vs {
		if p, ok := v.(Poison); ok {
			return p, true
		}
	}
	return Poison{}, false
}

func (x *Exec) binop(op token.Token, a, b Val, ta, tb types.Type) (Val, bool) {
	if p, ok := poisonOf(a, b); ok {
		panic(unsup("operation on unsupported value: " + p.why))
	}
	c := x.c
	switch op {
	case token.EQL, token.NEQ:
		// comparing an interface with a concrete value
		ia, aIsI := a.(Iface)
		ib, bIsI := b.(Iface)
		if aIsI && !bIsI {
			b = Iface{t: tb, v: b}
		} else if bIsI && !aIsI {
			a = Iface{t: ta, v: a}
		}
		_, _ = ia, ib
		r := x.eqVals(a, b)
		if op == token.NEQ {
			r = c.Not(r)
		}
		return r, true
	}
	if sa, ok := a.(Str); ok {
		sb := b.(Str)
		switch op {
		case token.ADD:
			return x.strCat(sa, sb), true
		case token.LSS:
			return x.strLt(sa, sb), true
		case token.GTR:
			return x.strLt(sb, sa), true
		case token.LEQ:
			return c.Not(x.strLt(sb, sa)), true
		case token.GEQ:
			return c.Not(x.strLt(sa, sb)), true
		}
	}
	va, ok1 := a.(*Term)
	vb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(unsup(fmt.Sprintf("binop %s on %T,%T", op, a, b)))
	}
	w, signed, _ := scalarW(ta)
	if isFP(w) {
		switch op {
		case token.ADD:
			return c.FBin(OFAdd, va, vb), true
		case token.SUB:
			return c.FBin(OFSub, va, vb), true
		case token.MUL:
			return c.FBin(OFMul, va, vb), true
		case token.QUO:
			return c.FBin(OFDiv, va, vb), true
		case token.LSS:
			return c.FLt(va, vb), true
		case token.LEQ:
			return c.FLe(va, vb), true
		case token.GTR:
			return c.FLt(vb, va), true
		case token.GEQ:
			return c.FLe(vb, va), true
		}
	}
	if w == WBool {
		switch op {
		case token.AND, token.LAND:
			return c.And(va, vb), true
		case token.OR, token.LOR:
			return c.Or(va, vb), true
		case token.XOR:
			return c.Not(c.Eq(va, vb)), true
		}
	}
	switch op {
	case token.ADD:
		return c.Add(va, vb), true
	case token.SUB:
		return c.Sub(va, vb), true
	case token.MUL:
		return c.Mul(va, vb), true
	case token.QUO, token.REM:
		if x.decide(c.Eq(vb, c.Const(vb.w, 0))) {
			x.rtPanic("integer divide by zero")
			return nil, false
		}
		if signed {
			if op == token.QUO {
				return c.Sdiv(va, vb), true
			}
			return c.Srem(va, vb), true
		}
		if op == token.QUO {
			return c.Udiv(va, vb), true
		}
		return c.Urem(va, vb), true
	case token.AND:
		return c.BAnd(va, vb), true
	case token.OR:
		return c.BOr(va, vb), true
	case token.XOR:
		return c.Xor(va, vb), true
	case token.AND_NOT:
		return c.BAnd(va, c.BNot(vb)), true
	case token.SHL, token.SHR:
		_, ssig, _ := scalarW(tb)
		if ssig && !vb.IsConst() {
			if x.decide(c.Slt(vb, c.Const(vb.w, 0))) {
				x.rtPanic("negative shift amount")
				return nil, false
			}
		}
		if op == token.SHL {
			return c.shiftSym(OShl, va, vb), true
		}
		if signed {
			return c.shiftSym(OAshr, va, vb), true
		}
		return c.shiftSym(OLshr, va, vb), true
	case token.LSS:
		if signed {
			return c.Slt(va, vb), true
		}
		return c.Ult(va, vb), true
	case token.GTR:
		if signed {
			return c.Slt(vb, va), true
		}
		return c.Ult(vb, va), true
	case token.LEQ:
		if signed {
			return c.Sle(va, vb), true
		}
		return c.Ule(va, vb), true
	case token.GEQ:
		if signed {
			return c.Sle(vb, va), true
		}
		return c.Ule(vb, va), true
	}
	panic(unsup("binop " + op.String()))
}

func (x *Exec) unop(f *Frame, i *ssa.UnOp) (Val, bool) {
	v := x.get(f, i.X)
	if i.Op == token.MUL {
		if p, ok := v.(Ptr); ok && p.obj == 0 {
			x.rtPanic("invalid memory address or nil pointer dereference")
			return nil, false
		}
		return x.load(v, i.Type()), true
	}
	if p, ok := v.(Poison); ok {
		panic(unsup("operation on unsupported value: " + p.why))
	}
	switch i.Op {
	case token.NOT:
		return x.c.Not(v.(*Term)), true
	case token.SUB:
		t := v.(*Term)
		if isFP(t.w) {
			return x.c.FNeg(t), true
		}
		return x.c.Neg(t), true
	case token.XOR:
		return x.c.BNot(v.(*Term)), true
	case token.ARROW:
		elem := i.X.Type().Underlying().(*types.Chan).Elem()
		r, okv, done := x.chanRecv(v.(ChanV), elem)
		if !done {
			return nil, false
		}
		if i.CommaOk {
			return Agg{r, x.c.Bool(okv)}, true
		}
		return r, true
	}
	panic(unsup("unop " + i.Op.String()))
}

// convInt converts integer term a (signedness of source) to width w.
func (x *Exec) convInt(a *Term, srcSigned bool, w int) *Term {
	switch {
	case a.w == w:
		return a
	case a.w > w:
		return x.c.Extract(a, w-1, 0)
	case srcSigned:
		return x.c.Sext(a, w)
	}
	return x.c.Zext(a, w)
}

func (x *Exec) convert(v Val, from, to types.Type) Val {
	if p, ok := v.(Poison); ok {
		panic(unsup("convert of unsupported value: " + p.why))
	}
	wt, ts, tok := scalarW(to)
	wf, fs, fok := scalarW(from)
	if tok && fok {
		t := v.(*Term)
		switch {
		case isFP(wf) && isFP(wt):
			return x.c.FToF(t, wt)
		case isFP(wf):
			return x.c.FToInt(t, wt, ts)
		case isFP(wt):
			return x.c.ToF(t, fs, wt)
		}
		return x.convInt(t, fs, wt)
	}
	if isString(to) {
		if isString(from) {
			return v
		}
		if fok {
			t := v.(*Term)
			if !t.IsConst() {
				if x.decide(x.c.Ult(x.convInt(t, fs, 64), x.c.Const(64, 128))) {
					return x.mkStr([]*Term{x.c.Extract(t, 7, 0)})
				}
				r := x.concretise(t)
				return cstr(string(rune(r)))
			}
			r := signExt(t.c, t.w)
			return cstr(string(rune(r)))
		}
		if st, ok := from.Underlying().(*types.Slice); ok {
			ew, _, _ := scalarW(st.Elem())
			s := v.(Slice)
			if ew == 8 {
				if s.obj != 0 {
					if op, ok := x.obj(s.obj).aux.(Str); ok {
						return op
					}
				}
				return x.mkStr(x.sliceTerms(s))
			}
			ts := x.sliceTerms(s)
			var rs []rune
			for _, t := range ts {
				rs = append(rs, rune(signExt(x.concretise(t), 32)))
			}
			return cstr(string(rs))
		}
	}
	if st, ok := to.Underlying().(*types.Slice); ok && isString(from) {
		ew, _, _ := scalarW(st.Elem())
		s := v.(Str)
		if ew == 8 {
			if s.op != nil {
				// opaque content: keep it opaque behind a byte slice
				id := x.alloc(&Object{aux: s})
				n := x.opLen(s)
				return Slice{obj: id, len: n, cap: n}
			}
			b := x.strBytes(s)
			if len(b) == 0 {
				id := x.alloc(&Object{})
				return Slice{obj: id, len: x.i0, cap: x.i0}
			}
			return x.newBytes(append([]*Term(nil), b...))
		}
		if !s.concrete() {
			panic(unsup("[]rune of symbolic string"))
		}
		var cells []Val
		for _, r := range s.s {
			cells = append(cells, x.c.Const(32, uint64(uint32(r))))
		}
		id := x.alloc(&Object{cells: cells})
		n := x.Int(int64(len(cells)))
		return Slice{obj: id, len: n, cap: n}
	}
	// pointer-ish conversions keep the value (unsafe.Pointer round trips)
	switch v.(type) {
	case Ptr, SymPtr, FuncV, MapV, ChanV, Slice, Iface, Agg:
		if _, ok := to.Underlying().(*types.Basic); ok && tok {
			panic(unsup("pointer to integer"))
		}
		return v
	}
	if tb, ok := to.Underlying().(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
		if t, ok := v.(*Term); ok && t.IsConst() && t.c == 0 {
			return Ptr{}
		}
	}
	panic(unsup(fmt.Sprintf("convert %v to %v", from, to)))
}

// boundsOK checks 0 <= idx < n, panicking in the program otherwise.
func (x *Exec) boundsOK(idx, n *Term) bool {
	idx = x.c.Zext(idx, 64)
	in := x.c.Ult(idx, n)
	if !x.decide(in) {
		if idx.IsConst() && n.IsConst() {
			x.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(idx.c), n.c))
		} else {
			x.rtPanic("index out of range")
		}
		return false
	}
	return true
}

func (x *Exec) idxTerm(v Val, t types.Type) *Term {
	if p, ok := v.(Poison); ok {
		panic(unsup("index by unsupported value: " + p.why))
	}
	_, s, _ := scalarW(t)
	return x.convInt(v.(*Term), s, 64)
}

func (x *Exec) index(f *Frame, i *ssa.Index) (Val, bool) {
	v := x.get(f, i.X)
	idx := x.idxTerm(x.get(f, i.Index), i.Index.Type())
	if p, ok := v.(Poison); ok {
		panic(unsup("index of unsupported value: " + p.why))
	}
	if s, ok := v.(Str); ok {
		if !x.boundsOK(idx, x.strLen(s)) {
			return nil, false
		}
		b := x.strBytes(s)
		return x.selectTerm(idx, b), true
	}
	a := v.(Agg)
	at := i.X.Type().Underlying().(*types.Array)
	if !x.boundsOK(idx, x.Int(at.Len())) {
		return nil, false
	}
	es := slots(at.Elem())
	if idx.IsConst() {
		k := int(idx.c) * es
		if isAgg(at.Elem()) {
			return append(Agg(nil), a[k:k+es]...), true
		}
		return a[k], true
	}
	if isAgg(at.Elem()) {
		k := int(x.concretise(idx)) * es
		return append(Agg(nil), a[k:k+es]...), true
	}
	return x.selectVal(idx, a), true
}

func (x *Exec) selectTerm(idx *Term, b []*Term) *Term {
	if idx.IsConst() {
		return b[int(idx.c)]
	}
	vals := make([]Val, len(b))
	for k, t := range b {
		vals[k] = t
	}
	return x.selectVal(idx, vals).(*Term)
}

func (x *Exec) indexAddr(f *Frame, i *ssa.IndexAddr) (Val, bool) {
	v := x.get(f, i.X)
	if p, ok := v.(Poison); ok {
		panic(unsup("index of unsupported value: " + p.why))
	}
	idx := x.idxTerm(x.get(f, i.Index), i.Index.Type())
	var obj, off, n int
	var elem types.Type
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		s := v.(Slice)
		if !x.boundsOK(idx, s.len) {
			return nil, false
		}
		elem = u.Elem()
		obj, off = s.obj, s.off
		if !idx.IsConst() {
			if s.len.IsConst() {
				n = int(s.len.c)
			} else {
				n = int(minU(s.len.uhi, 1<<16))
				if n > 4096 {
					x.concretise(idx)
					idx = x.c.Const(64, x.concretise(idx))
				}
			}
		}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		elem = at.Elem()
		if !x.boundsOK(idx, x.Int(at.Len())) {
			return nil, false
		}
		n = int(at.Len())
		switch p := v.(type) {
		case Ptr:
			if p.obj == 0 {
				x.rtPanic("invalid memory address or nil pointer dereference")
				return nil, false
			}
			obj, off = p.obj, p.off
		case SymPtr:
			if idx.IsConst() {
				p.sub += int(idx.c) * slots(elem)
				return p, true
			}
			panic(unsup("doubly symbolic index"))
		}
	}
	es := slots(elem)
	if idx.IsConst() {
		return Ptr{obj, off + int(idx.c)*es}, true
	}
	if obj != 0 {
		if o := x.obj(obj); o.lazy && n > 4096 {
			k := x.concretise(idx)
			return Ptr{obj, off + int(k)*es}, true
		}
	}
	return SymPtr{obj: obj, off: off, stride: es, n: n, idx: idx}, true
}

func (x *Exec) lookup(f *Frame, i *ssa.Lookup) (Val, bool) {
	v := x.get(f, i.X)
	if p, ok := v.(Poison); ok {
		panic(unsup("lookup in unsupported value: " + p.why))
	}
	if s, ok := v.(Str); ok {
		idx := x.idxTerm(x.get(f, i.Index), i.Index.Type())
		if !x.boundsOK(idx, x.strLen(s)) {
			return nil, false
		}
		return x.selectTerm(idx, x.strBytes(s)), true
	}
	m := v.(MapV)
	mt := i.X.Type().Underlying().(*types.Map)
	k := x.get(f, i.Index)
	r, found := x.mapGet(m, k)
	if !found {
		r = x.zero(mt.Elem())
	}
	if i.CommaOk {
		return Agg{r, x.c.Bool(found)}, true
	}
	return r, true
}

func (x *Exec) mapFind(m MapV, k Val) int {
	if m.obj == 0 {
		return -1
	}
	o := x.obj(m.obj)
	x.access(m.obj, 0, 1, false)
	for n, e := range o.m.ents {
		eq := x.eqVals(e.k, k)
		if eq.IsFalse() {
			continue
		}
		if x.decide(eq) {
			return n
		}
	}
	return -1
}

func (x *Exec) mapGet(m MapV, k Val) (Val, bool) {
	if n := x.mapFind(m, k); n >= 0 {
		return x.obj(m.obj).m.ents[n].v, true
	}
	return nil, false
}

func (x *Exec) mapSet(m MapV, k, v Val) {
	n := x.mapFind(m, k)
	x.access(m.obj, 0, 1, true)
	o := x.wobj(m.obj)
	if n >= 0 {
		o.m.ents[n].v = v
		return
	}
	o.m.ents = append(o.m.ents, mapEnt{k, v})
}

func (x *Exec) mapDelete(m MapV, k Val) {
	x.access(m.obj, 0, 1, true)
	if n := x.mapFind(m, k); n >= 0 {
		o := x.wobj(m.obj)
		o.m.ents = append(o.m.ents[:n:n], o.m.ents[n+1:]...)
	}
}

func (x *Exec) slice(f *Frame, i *ssa.Slice) (Val, bool) {
	v := x.get(f, i.X)
	if p, ok := v.(Poison); ok {
		panic(unsup("slice of unsupported value: " + p.why))
	}
	bound := func(b ssa.Value) *Term {
		if b == nil {
			return nil
		}
		return x.idxTerm(x.get(f, b), b.Type())
	}
	lo, hi, mx := bound(i.Low), bound(i.High), bound(i.Max)
	c := x.c
	if s, ok := v.(Str); ok {
		n := x.strLen(s)
		if lo == nil {
			lo = x.i0
		}
		if hi == nil {
			hi = n
		}
		if s.op != nil && lo.IsConst() && lo.c == 0 && hi == n {
			return s, true
		}
		ok := c.And(c.Ule(lo, hi), c.Ule(hi, n))
		if !x.decide(ok) {
			x.rtPanic("slice bounds out of range (string)")
			return nil, false
		}
		l, h := int(x.concretise(lo)), int(x.concretise(hi))
		if s.concrete() {
			return cstr(s.s[l:h]), true
		}
		return x.mkStr(x.strBytes(s)[l:h]), true
	}
	var obj, off int
	var ln, cp *Term
	es := 1
	switch u := i.X.Type().Underlying().(type) {
	case *types.Slice:
		s := v.(Slice)
		obj, off, ln, cp = s.obj, s.off, s.len, s.cap
		es = slots(u.Elem())
	case *types.Pointer:
		p, ok := v.(Ptr)
		if !ok {
			panic(unsup("slice of symbolic array pointer"))
		}
		if p.obj == 0 {
			x.rtPanic("invalid memory address or nil pointer dereference")
			return nil, false
		}
		at := u.Elem().Underlying().(*types.Array)
		obj, off = p.obj, p.off
		ln = x.Int(at.Len())
		cp = ln
		es = slots(at.Elem())
	default:
		panic(unsup("slice of " + i.X.Type().String()))
	}
	if lo == nil {
		lo = x.i0
	}
	if hi == nil {
		hi = ln
	}
	limit := cp
	if mx == nil {
		mx = cp
	}
	ok := c.And(c.And(c.Ule(lo, hi), c.Ule(hi, mx)), c.Ule(mx, limit))
	if !x.decide(ok) {
		d := ""
		if lo.IsConst() && hi.IsConst() && limit.IsConst() {
			d = fmt.Sprintf(" [%d:%d] with capacity %d", int64(lo.c), int64(hi.c), limit.c)
		}
		x.rtPanic("slice bounds out of range" + d)
		return nil, false
	}
	l := int(x.concretise(lo))
	if obj == 0 {
		return Slice{len: x.i0, cap: x.i0}, true
	}
	if op, isOp := x.obj(obj).aux.(Str); isOp && len(x.obj(obj).cells) == 0 && op.op != nil && (l != 0 || hi != ln) {
		panic(unsup("slicing opaque bytes"))
	}
	lt := c.Const(64, uint64(l))
	return Slice{obj: obj, off: off + l*es, len: c.Sub(hi, lt), cap: c.Sub(mx, lt)}, true
}

func (x *Exec) makeSlice(f *Frame, i *ssa.MakeSlice) (Val, bool) {
	ln := x.idxTerm(x.get(f, i.Len), i.Len.Type())
	cp := x.idxTerm(x.get(f, i.Cap), i.Cap.Type())
	elem := i.Type().Underlying().(*types.Slice).Elem()
	c := x.c
	bad := c.Or(c.Slt(ln, x.i0), c.Slt(cp, ln))
	if x.decide(bad) {
		x.rtPanic("makeslice: len out of range")
		return nil, false
	}
	huge := c.Ult(c.Const(64, 1<<40), cp)
	if x.decide(huge) {
		x.rtPanic("makeslice: len out of range")
		return nil, false
	}
	z := x.zeroCells(elem, nil)
	if cp.IsConst() && cp.c <= 1<<12 {
		cells := make([]Val, 0, int(cp.c)*len(z))
		for k := 0; k < int(cp.c); k++ {
			cells = append(cells, z...)
		}
		id := x.alloc(&Object{cells: cells, lazy: len(z) > 0, zero: z})
		return Slice{obj: id, len: ln, cap: cp}, true
	}
	id := x.alloc(&Object{lazy: true, zero: z})
	return Slice{obj: id, len: ln, cap: cp}, true
}

func (x *Exec) next(f *Frame, i *ssa.Next) Val {
	p := x.get(f, i.Iter).(Ptr)
	tup := i.Type().(*types.Tuple)
	it := x.obj(p.obj).it
	zeroOf := func(k int) Val {
		t := tup.At(k).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return x.zero(t)
	}
	if it.isS {
		n := int(x.concretise(x.strLen(it.str)))
		if it.i >= n {
			return Agg{x.c.False, zeroOf(1), zeroOf(2)}
		}
		pos := it.i
		b := x.strBytes(it.str)
		if b[pos].IsConst() {
			var buf []byte
			for k := pos; k < n && k < pos+4 && b[k].IsConst(); k++ {
				buf = append(buf, byte(b[k].c))
			}
			r, sz := utf8.DecodeRune(buf)
			x.wobj(p.obj).it.i += sz
			return Agg{x.c.True, x.Int(int64(pos)), x.c.Const(32, uint64(uint32(r)))}
		}
		if x.decide(x.c.Ult(b[pos], x.c.Const(8, 0x80))) {
			x.wobj(p.obj).it.i++
			return Agg{x.c.True, x.Int(int64(pos)), x.c.Zext(b[pos], 32)}
		}
		var buf []byte
		for k := pos; k < n && k < pos+4; k++ {
			buf = append(buf, byte(x.concretise(b[k])))
		}
		r, sz := utf8.DecodeRune(buf)
		x.wobj(p.obj).it.i += sz
		return Agg{x.c.True, x.Int(int64(pos)), x.c.Const(32, uint64(uint32(r)))}
	}
	if it.i >= len(it.ents) {
		return Agg{x.c.False, zeroOf(1), zeroOf(2)}
	}
	e := it.ents[it.i]
	x.wobj(p.obj).it.i++
	return Agg{x.c.True, e.k, e.v}
}

func (x *Exec) implements(t types.Type, it *types.Interface) bool {
	if t == rtErrType {
		return it.NumMethods() == 0 || (it.NumMethods() == 1 && it.Method(0).Name() == "Error")
	}
	return types.Implements(t, it)
}

func (x *Exec) typeAssert(f *Frame, i *ssa.TypeAssert) (Val, bool) {
	v := x.get(f, i.X)
	if p, ok := v.(Poison); ok {
		panic(unsup("type assertion on unsupported value: " + p.why))
	}
	ifc := v.(Iface)
	ok := false
	var r Val
	if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
		ok = ifc.t != nil && x.implements(ifc.t, it)
		r = ifc
		if !ok {
			r = Iface{}
		}
	} else {
		ok = ifc.t != nil && types.Identical(ifc.t, i.AssertedType)
		if ok {
			r = ifc.v
		} else {
			r = x.zero(i.AssertedType)
		}
	}
	if i.CommaOk {
		return Agg{r, x.c.Bool(ok)}, true
	}
	if !ok {
		d := "nil"
		if ifc.t != nil {
			d = ifc.t.String()
		}
		x.rtPanic("interface conversion: interface is " + d + ", not " + i.AssertedType.String())
		return nil, false
	}
	return r, true
}

// ---------- channels and scheduling

func (x *Exec) wakeAll() {
	for _, t := range x.st.threads {
		if t.parked && !t.idle && !t.waitW {
			t.parked = false
		}
	}
}

func (x *Exec) park() {
	th := x.st.threads[x.st.cur]
	th.parked = true
}

func (x *Exec) chanSend(th *Thread, ch ChanV, v Val) bool {
	if ch.obj == 0 {
		th.parked = true
		return false
	}
	x.syncEdge(th, fmt.Sprintf("ch:%d", ch.obj))
	o := x.obj(ch.obj).ch
	if o.closed {
		x.goPanic(Iface{t: rtErrType, v: cstr("send on closed channel")}, "send on closed channel")
		return false
	}
	limit := o.cap
	if limit == 0 {
		limit = 1 // approximates an unbuffered hand-over
		x.st.note("unbuffered channel treated as a one-slot buffer")
	}
	if len(o.buf) >= limit {
		th.parked = true
		return false
	}
	w := x.wobj(ch.obj).ch
	w.buf = append(w.buf, v)
	x.wakeAll()
	return true
}

func (x *Exec) chanRecv(ch ChanV, elem types.Type) (Val, bool, bool) {
	th := x.st.threads[x.st.cur]
	if ch.obj == 0 {
		th.parked = true
		return nil, false, false
	}
	x.syncEdge(th, fmt.Sprintf("ch:%d", ch.obj))
	o := x.obj(ch.obj).ch
	if len(o.buf) > 0 {
		w := x.wobj(ch.obj).ch
		v := w.buf[0]
		w.buf = append([]Val(nil), w.buf[1:]...)
		x.wakeAll()
		return v, true, true
	}
	if o.closed {
		return x.zero(elem), false, true
	}
	th.parked = true
	return nil, false, false
}

// fire delivers timer k (the clock has reached it).
func (x *Exec) fire(k int) {
	s := x.st
	t := &s.timers[k]
	t.active = false
	if t.fn.fn != nil {
		nt := &Thread{id: len(s.threads), name: fmt.Sprintf("timer%d", k)}
		s.threads = append(s.threads, nt)
		x.pushFrame(nt, t.fn.fn, nil, t.fn.bind, nil)
		return
	}
	w := x.wobj(t.ch).ch
	if len(w.buf) == 0 {
		w.buf = append(w.buf, x.timeVal(x.c.Add(s.clock, x.Int(epochClock))))
	}
	x.wakeAll()
}

// advance moves the virtual clock forward by d and fires the timers that are due, earliest registered first.
func (x *Exec) advance(d *Term) {
	s := x.st
	now := x.c.Add(s.clock, d)
	// decisions first: this instruction is re-executed when a decision forks
	var due []int
	for k := range s.timers {
		if s.timers[k].active && x.decide(x.c.Sle(s.timers[k].when, now)) {
			due = append(due, k)
		}
	}
	s.clock = now
	for _, k := range due {
		x.fire(k)
	}
	x.wakeAll()
}

// fireNext lets time pass until the earliest pending timer when nothing else can run.
func (x *Exec) fireNext() bool {
	s := x.st
	best := -1
	for k := range s.timers {
		if !s.timers[k].active {
			continue
		}
		if best < 0 || x.decide(x.c.Slt(s.timers[k].when, s.timers[best].when)) {
			best = k
		}
	}
	if best < 0 {
		return false
	}
	if x.decide(x.c.Slt(s.clock, s.timers[best].when)) {
		s.clock = s.timers[best].when
	}
	x.fire(best)
	return true
}

func (x *Exec) selectStmt(th *Thread, f *Frame, i *ssa.Select) (Val, bool) {
	var ready []int
	for k, st := range i.States {
		ch := x.get(f, st.Chan).(ChanV)
		if ch.obj == 0 {
			continue
		}
		x.syncEdge(th, fmt.Sprintf("ch:%d", ch.obj))
		o := x.obj(ch.obj).ch
		if st.Dir == types.SendOnly {
			lim := o.cap
			if lim == 0 {
				lim = 1
			}
			if o.closed || len(o.buf) < lim {
				ready = append(ready, k)
			}
		} else if len(o.buf) > 0 || o.closed {
			ready = append(ready, k)
		}
	}
	res := Agg{x.Int(-1), x.c.False}
	nrecv := 0
	for _, st := range i.States {
		if st.Dir == types.RecvOnly {
			res = append(res, x.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
			nrecv++
		}
	}
	if len(ready) == 0 {
		if !i.Blocking {
			return res, true
		}
		th.parked = true
		return nil, false
	}
	k := ready[0]
	if len(ready) > 1 {
		k = ready[x.choose("select", len(ready))]
	}
	st := i.States[k]
	ch := x.get(f, st.Chan).(ChanV)
	res[0] = x.Int(int64(k))
	if st.Dir == types.SendOnly {
		if !x.chanSend(th, ch, x.get(f, st.Send)) {
			return nil, false
		}
		return res, true
	}
	v, ok, done := x.chanRecv(ch, st.Chan.Type().Underlying().(*types.Chan).Elem())
	if !done {
		return nil, false
	}
	res[1] = x.c.Bool(ok)
	n := 0
	for j, s2 := range i.States {
		if s2.Dir == types.RecvOnly {
			if j == k {
				res[2+n] = v
			}
			n++
		}
	}
	return res, true
}

// ---------- builtins

func roundupsize(n int) int {
	for _, c := range sizeClasses {
		if n <= c {
			return c
		}
	}
	return (n + 8191) &^ 8191
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, newLen int, elemSize int) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if elemSize <= 0 {
		return nc
	}
	return roundupsize(nc*elemSize) / elemSize
}

var gcSizes = types.SizesFor("gc", "amd64")

func (x *Exec) appendTo(s Slice, elem types.Type, add []Val, addN int) Slice {
	es := slots(elem)
	n := int(x.concretise(s.len))
	cp := int(x.concretise(s.cap))
	if addN == 0 {
		return s
	}
	if n+addN <= cp && s.obj != 0 {
		if x.st.race != nil {
			x.access(s.obj, s.off+n*es, addN*es, true)
		}
		o := x.wobj(s.obj)
		o.grow(s.off + (n+addN)*es)
		copy(o.cells[s.off+n*es:], add)
		return Slice{obj: s.obj, off: s.off, len: x.Int(int64(n + addN)), cap: s.cap}
	}
	sz := 1
	func() {
		defer func() { recover() }()
		sz = int(gcSizes.Sizeof(elem))
	}()
	nc := growCap(cp, n+addN, sz)
	cells := make([]Val, 0, (n+addN)*es)
	if n > 0 {
		x.accessSlice(s, n, es, false)
		o := x.obj(s.obj)
		for k := 0; k < n*es; k++ {
			cells = append(cells, o.cell(s.off+k))
		}
	}
	cells = append(cells, add...)
	z := x.zeroCells(elem, nil)
	if nc <= 1<<12 {
		for len(cells) < nc*es {
			cells = append(cells, z...)
		}
	}
	id := x.alloc(&Object{cells: cells, lazy: true, zero: z})
	return Slice{obj: id, len: x.Int(int64(n + addN)), cap: x.Int(int64(nc))}
}

func (x *Exec) builtin(th *Thread, b *ssa.Builtin, args []Val, site ssa.Instruction) Val {
	for _, a := range args {
		if p, ok := a.(Poison); ok {
			panic(unsup("builtin on unsupported value: " + p.why))
		}
	}
	sig, _ := b.Type().(*types.Signature)
	switch b.Name() {
	case "append":
		st := sig.Results().At(0).Type().Underlying().(*types.Slice)
		elem := st.Elem()
		s := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		switch a := args[1].(type) {
		case Slice:
			n := int(x.concretise(a.len))
			es := slots(elem)
			add := make([]Val, n*es)
			if n > 0 {
				x.accessSlice(a, n, es, false)
				o := x.obj(a.obj)
				for k := range add {
					add[k] = o.cell(a.off + k)
				}
			}
			x.concretise(s.len)
			x.concretise(s.cap)
			return x.appendTo(s, elem, add, n)
		case Str:
			bs := x.strBytes(a)
			add := make([]Val, len(bs))
			for k, t := range bs {
				add[k] = t
			}
			x.concretise(s.len)
			x.concretise(s.cap)
			return x.appendTo(s, elem, add, len(bs))
		}
	case "copy":
		d := args[0].(Slice)
		var src []Val
		elem := sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
		es := slots(elem)
		var sl *Term
		var ss Slice
		isStr := false
		var sb []*Term
		switch a := args[1].(type) {
		case Slice:
			sl = a.len
			ss = a
		case Str:
			isStr = true
			sb = x.strBytes(a)
			sl = x.Int(int64(len(sb)))
		}
		mn := x.c.Ite(x.c.Slt(sl, d.len), sl, d.len)
		n := int(x.concretise(mn))
		if n == 0 {
			return x.i0
		}
		if isStr {
			for _, t := range sb[:n] {
				src = append(src, t)
			}
		} else {
			x.accessSlice(ss, n, es, false)
			o := x.obj(ss.obj)
			for k := 0; k < n*es; k++ {
				src = append(src, o.cell(ss.off+k))
			}
		}
		x.accessSlice(d, n, es, true)
		o := x.wobj(d.obj)
		o.grow(d.off + n*es)
		copy(o.cells[d.off:], src)
		return x.Int(int64(n))
	case "len":
		switch a := args[0].(type) {
		case Str:
			return x.strLen(a)
		case Slice:
			return a.len
		case MapV:
			if a.obj == 0 {
				return x.i0
			}
			x.access(a.obj, 0, 1, false)
			return x.Int(int64(len(x.obj(a.obj).m.ents)))
		case ChanV:
			if a.obj == 0 {
				return x.i0
			}
			return x.Int(int64(len(x.obj(a.obj).ch.buf)))
		case Agg:
			at := sig.Params().At(0).Type().Underlying().(*types.Array)
			return x.Int(at.Len())
		case Ptr:
			at := sig.Params().At(0).Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return x.Int(at.Len())
		}
	case "cap":
		switch a := args[0].(type) {
		case Slice:
			return a.cap
		case ChanV:
			if a.obj == 0 {
				return x.i0
			}
			return x.Int(int64(x.obj(a.obj).ch.cap))
		}
	case "delete":
		m := args[0].(MapV)
		if m.obj != 0 {
			x.mapDelete(m, args[1])
		}
		return nil
	case "close":
		ch := args[0].(ChanV)
		if ch.obj == 0 || x.obj(ch.obj).ch.closed {
			x.goPanic(Iface{t: rtErrType, v: cstr("close of nil or closed channel")}, "close of nil or closed channel")
			return nil
		}
		x.syncEdge(th, fmt.Sprintf("ch:%d", ch.obj))
		x.wobj(ch.obj).ch.closed = true
		x.wakeAll()
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch rv := r.(type) {
			case *Term:
				av := a.(*Term)
				_, signed, _ := scalarW(sig.Params().At(0).Type())
				var lt *Term
				switch {
				case isFP(rv.w):
					panic(unsup("float min/max"))
				case signed:
					lt = x.c.Slt(av, rv)
				default:
					lt = x.c.Ult(av, rv)
				}
				if b.Name() == "max" {
					lt = x.c.And(x.c.Not(lt), x.c.Not(x.c.Eq(av, rv)))
				}
				r = x.c.Ite(lt, av, rv)
			default:
				panic(unsup("min/max of strings"))
			}
		}
		return r
	case "clear":
		switch a := args[0].(type) {
		case MapV:
			if a.obj != 0 {
				x.wobj(a.obj).m.ents = nil
			}
		case Slice:
			n := int(x.concretise(a.len))
			elem := sig.Params().At(0).Type().Underlying().(*types.Slice).Elem()
			z := x.zeroCells(elem, nil)
			if n > 0 {
				o := x.wobj(a.obj)
				o.grow(a.off + n*len(z))
				for k := 0; k < n; k++ {
					copy(o.cells[a.off+k*len(z):], z)
				}
			}
		}
		return nil
	case "recover":
		n := len(th.frames)
		// the calling frame must be a deferred call run while panicking
		if n >= 2 && len(th.panics) > 0 && th.frames[n-1].isDefer && th.frames[n-2].mode == 2 {
			p := th.panics[len(th.panics)-1]
			if !p.recovered {
				p.recovered = true
				if i, ok := p.val.(Iface); ok {
					return i
				}
				return Iface{t: types.Typ[types.String], v: p.val}
			}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == 0 {
			x.rtPanic("value method called using nil pointer")
			return nil
		}
		return args[0]
	case "String": // unsafe.String
		p := args[0].(Ptr)
		n := int(x.concretise(x.idxTerm(args[1], sig.Params().At(1).Type())))
		if n == 0 {
			return Str{}
		}
		o := x.obj(p.obj)
		bs := make([]*Term, n)
		for k := range bs {
			bs[k] = o.cell(p.off + k).(*Term)
		}
		return x.mkStr(bs)
	case "StringData":
		s := args[0].(Str)
		bs := x.strBytes(s)
		sl := x.newBytes(append([]*Term(nil), bs...))
		return Ptr{sl.obj, 0}
	case "Slice":
		p := args[0].(Ptr)
		n := x.idxTerm(args[1], sig.Params().At(1).Type())
		if p.obj == 0 {
			return Slice{len: x.i0, cap: x.i0}
		}
		return Slice{obj: p.obj, off: p.off, len: n, cap: n}
	case "SliceData":
		s := args[0].(Slice)
		return Ptr{s.obj, s.off}
	}
	panic(unsup("builtin " + b.Name()))
}
