package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Ptr struct {
	obj, off int
}

// SymPtr addresses one of n equally sized elements chosen by a symbolic index.
type SymPtr struct {
	obj, off, stride, n int
	idx                 *Term
	sub                 int // slot offset inside the element
}

type Slice struct {
	obj, off int
	len, cap *Term
}

type OpStr struct {
	fn   string
	args []Val
	key  string
}

// Str: concrete (op==nil,b==nil), symbolic bytes (b!=nil) or opaque (op!=nil).
type Str struct {
	s  string
	b  []*Term
	op *OpStr
}

type Iface struct {
	t types.Type
	v Val
}

type Agg []Val

type MapV struct{ obj int }
type ChanV struct{ obj int }

type FuncV struct {
	fn   *ssa.Function
	bind []Val
	blt  *ssa.Builtin
	recv Val // bound method via intrinsic
}

type Poison struct{ why string }

type mapEnt struct {
	k, v Val
}

type MapObj struct {
	ents []mapEnt
}

type ChanObj struct {
	buf    []Val
	cap    int
	closed bool
	recvW  int // receivers waiting (unbuffered handshake)
	sync   []Val
}

type IterObj struct {
	ents []mapEnt
	i    int
	str  Str
	isS  bool
}

type Object struct {
	owner int64
	cells []Val
	zero  []Val // element default for lazily sized objects
	lazy  bool
	m     *MapObj
	ch    *ChanObj
	it    *IterObj
	typ   types.Type
	aux   interface{}
}

func (o *Object) clone(owner int64) *Object {
	n := *o
	n.owner = owner
	n.cells = append([]Val(nil), o.cells...)
	if o.m != nil {
		n.m = &MapObj{ents: append([]mapEnt(nil), o.m.ents...)}
	}
	if o.ch != nil {
		c := *o.ch
		c.buf = append([]Val(nil), o.ch.buf...)
		c.sync = append([]Val(nil), o.ch.sync...)
		n.ch = &c
	}
	if o.it != nil {
		c := *o.it
		n.it = &c
	}
	return &n
}

// ---------- type layout

var (
	layoutMu sync.Mutex
	slotMemo = map[types.Type]int{}
)

func slots(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		layoutMu.Lock()
		n, ok := slotMemo[t]
		layoutMu.Unlock()
		if ok {
			return n
		}
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += slots(u.Field(i).Type())
		}
		layoutMu.Lock()
		slotMemo[t] = n
		layoutMu.Unlock()
		return n
	case *types.Array:
		return int(u.Len()) * slots(u.Elem())
	case *types.Tuple:
		return u.Len()
	}
	return 1
}

func fieldOff(st *types.Struct, f int) int {
	n := 0
	for i := 0; i < f; i++ {
		n += slots(st.Field(i).Type())
	}
	return n
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// width of a scalar basic type; ok=false when not a scalar.
func scalarW(t types.Type) (w int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return WBool, false, true
	case types.Int8:
		return 8, true, true
	case types.Uint8:
		return 8, false, true
	case types.Int16:
		return 16, true, true
	case types.Uint16:
		return 16, false, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint32:
		return 32, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Float64, types.UntypedFloat:
		return WF64, true, true
	case types.Float32:
		return WF32, true, true
	}
	return 0, false, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.String || b.Kind() == types.UntypedString)
}

func (x *Exec) zeroCells(t types.Type, out []Val) []Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = x.zeroCells(u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		e := x.zeroCells(u.Elem(), nil)
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, e...)
		}
		return out
	}
	return append(out, x.zero(t))
}

func (x *Exec) zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := scalarW(t); ok {
			return x.c.Const(w, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return Str{}
		case types.UnsafePointer:
			return Ptr{}
		case types.UntypedNil:
			return Iface{}
		case types.Complex64, types.Complex128:
			return Poison{"complex"}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{len: x.i0, cap: x.i0}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return FuncV{}
	case *types.Struct, *types.Array:
		return Agg(x.zeroCells(t, nil))
	case *types.Tuple:
		var a Agg
		for i := 0; i < u.Len(); i++ {
			a = append(a, x.zero(u.At(i).Type()))
		}
		return a
	}
	panic(unsup(fmt.Sprintf("zero of %v", t)))
}

// ---------- strings

func cstr(s string) Str { return Str{s: s} }

func (s Str) concrete() bool { return s.b == nil && s.op == nil }

func (x *Exec) strLen(s Str) *Term {
	if s.op != nil {
		return x.opLen(s)
	}
	if s.b != nil {
		return x.Int(int64(len(s.b)))
	}
	return x.Int(int64(len(s.s)))
}

func (x *Exec) opLen(s Str) *Term {
	if s.op.fn == "time.RFC3339" {
		return x.Int(20)
	}
	t := x.c.Var(smtName("len("+s.op.key+")"), 20)
	return x.c.Zext(t, 64)
}

func (x *Exec) strBytes(s Str) []*Term {
	if s.op != nil {
		panic(unsup("bytes of opaque string " + s.op.key))
	}
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		r[i] = x.c.Const(8, uint64(s.s[i]))
	}
	return r
}

// mkStr builds a string from byte terms, concrete when all are constants.
func (x *Exec) mkStr(b []*Term) Str {
	conc := true
	for _, t := range b {
		if !t.IsConst() {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, t := range b {
			bs[i] = byte(t.c)
		}
		return Str{s: string(bs)}
	}
	return Str{b: append([]*Term(nil), b...)}
}

func (x *Exec) opaque(fn string, args ...Val) Str {
	var sb strings.Builder
	sb.WriteString(fn)
	sb.WriteByte('(')
	for i, a := range args {
		if i > 0 {
			sb.WriteByte(',')
		}
		sb.WriteString(x.key(a))
	}
	sb.WriteByte(')')
	return Str{op: &OpStr{fn: fn, args: args, key: sb.String()}}
}

// smtName makes a name fit for a quoted symbol.
func smtName(s string) string {
	return strings.NewReplacer("|", "\u00a6", "\\", "\u29f5").Replace(s)
}

// key gives a canonical identity for a value (used for opaque function applications).
func (x *Exec) key(v Val) string {
	switch v := v.(type) {
	case *Term:
		if v.IsConst() {
			return fmt.Sprintf("%d:%d", v.w, v.c)
		}
		return fmt.Sprintf("t%d", v.id)
	case Str:
		if v.op != nil {
			return v.op.key
		}
		if v.b != nil {
			var p []string
			for _, t := range v.b {
				p = append(p, x.key(t))
			}
			return "b[" + strings.Join(p, " ") + "]"
		}
		return fmt.Sprintf("%q", v.s)
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return v.t.String() + ":" + x.key(v.v)
	case Ptr:
		return fmt.Sprintf("p%d.%d", v.obj, v.off)
	case Slice:
		return fmt.Sprintf("s%d.%d.%s", v.obj, v.off, x.key(v.len))
	case Agg:
		var p []string
		for _, t := range v {
			p = append(p, x.key(t))
		}
		return "{" + strings.Join(p, ",") + "}"
	case MapV:
		return fmt.Sprintf("m%d", v.obj)
	case FuncV:
		if v.fn != nil {
			return v.fn.String()
		}
		return "fnil"
	}
	return fmt.Sprintf("%T", v)
}

func (x *Exec) strEq(a, b Str) *Term {
	if a.concrete() && b.concrete() {
		return x.c.Bool(a.s == b.s)
	}
	if a.op != nil || b.op != nil {
		if a.op != nil && b.op != nil {
			if a.op.key == b.op.key {
				return x.c.True
			}
			if a.op.fn == b.op.fn && len(a.op.args) == len(b.op.args) && injective[a.op.fn] {
				r := x.c.True
				for i := range a.op.args {
					r = x.c.And(r, x.eqVals(a.op.args[i], b.op.args[i]))
				}
				return r
			}
		} else {
			// opaque vs concrete: empty string never equals a formatted value
			o, k := a, b
			if o.op == nil {
				o, k = b, a
			}
			if k.concrete() && k.s == "" {
				return x.c.Eq(x.opLen(o), x.i0)
			}
		}
		k1, k2 := x.key(a), x.key(b)
		if k1 > k2 {
			k1, k2 = k2, k1
		}
		x.st.note("opaque string comparison")
		return x.c.Var(smtName("streq["+k1+"~"+k2+"]"), WBool)
	}
	ab, bb := x.strBytes(a), x.strBytes(b)
	if len(ab) != len(bb) {
		return x.c.False
	}
	r := x.c.True
	for i := range ab {
		r = x.c.And(r, x.c.Eq(ab[i], bb[i]))
		if r.IsFalse() {
			return r
		}
	}
	return r
}

var injective = map[string]bool{"time.RFC3339": true, "concat": false}

func (x *Exec) strLt(a, b Str) *Term {
	if a.concrete() && b.concrete() {
		return x.c.Bool(a.s < b.s)
	}
	ab, bb := x.strBytes(a), x.strBytes(b)
	n := len(ab)
	if len(bb) < n {
		n = len(bb)
	}
	r := x.c.Bool(len(ab) < len(bb))
	for i := n - 1; i >= 0; i-- {
		r = x.c.IteB(x.c.Eq(ab[i], bb[i]), r, x.c.Ult(ab[i], bb[i]))
	}
	return r
}

func (x *Exec) strCat(a, b Str) Str {
	if a.concrete() && a.s == "" {
		return b
	}
	if b.concrete() && b.s == "" {
		return a
	}
	if a.concrete() && b.concrete() {
		return Str{s: a.s + b.s}
	}
	if a.op != nil || b.op != nil {
		var parts []Val
		add := func(s Str) {
			if s.op != nil && s.op.fn == "concat" {
				parts = append(parts, s.op.args...)
			} else {
				parts = append(parts, s)
			}
		}
		add(a)
		add(b)
		// merge adjacent concrete parts
		var m []Val
		for _, p := range parts {
			if len(m) > 0 {
				q := m[len(m)-1].(Str)
				if q.op == nil && p.(Str).op == nil {
					m[len(m)-1] = x.strCat(q, p.(Str))
					continue
				}
			}
			m = append(m, p)
		}
		return x.opaque("concat", m...)
	}
	return x.mkStr(append(append([]*Term(nil), x.strBytes(a)...), x.strBytes(b)...))
}

// ---------- equality

func (x *Exec) eqVals(a, b Val) *Term {
	switch av := a.(type) {
	case *Term:
		bv, ok := b.(*Term)
		if !ok {
			panic(unsup(fmt.Sprintf("eq %T %T", a, b)))
		}
		if isFP(av.w) {
			return x.c.FEq(av, bv)
		}
		return x.c.Eq(av, bv)
	case Str:
		return x.strEq(av, b.(Str))
	case Ptr:
		switch bv := b.(type) {
		case Ptr:
			return x.c.Bool(av == bv)
		case SymPtr:
			panic(unsup("symbolic pointer comparison"))
		}
	case Iface:
		bv, ok := b.(Iface)
		if !ok {
			panic(unsup(fmt.Sprintf("eq iface %T", b)))
		}
		if av.t == nil || bv.t == nil {
			return x.c.Bool(av.t == nil && bv.t == nil)
		}
		if !types.Identical(av.t, bv.t) {
			return x.c.False
		}
		return x.eqVals(av.v, bv.v)
	case Agg:
		bv := b.(Agg)
		r := x.c.True
		for i := range av {
			r = x.c.And(r, x.eqVals(av[i], bv[i]))
			if r.IsFalse() {
				return r
			}
		}
		return r
	case Slice: // only nil comparison
		bv := b.(Slice)
		return x.c.Bool(av.obj == 0 && bv.obj == 0)
	case MapV:
		return x.c.Bool(av.obj == b.(MapV).obj)
	case ChanV:
		return x.c.Bool(av.obj == b.(ChanV).obj)
	case FuncV:
		bv := b.(FuncV)
		isNil := func(f FuncV) bool { return f.fn == nil && f.blt == nil }
		return x.c.Bool(isNil(av) == isNil(bv) && (isNil(av) || av.fn == bv.fn))
	case Poison:
		panic(unsup("use of unsupported value: " + av.why))
	}
	if p, ok := b.(Poison); ok {
		panic(unsup("use of unsupported value: " + p.why))
	}
	panic(unsup(fmt.Sprintf("eq %T %T", a, b)))
}

type unsupported struct{ msg string }

func unsup(m string) unsupported { return unsupported{m} }
