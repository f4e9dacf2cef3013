package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// fixed-size values as bytes: what encoding/binary does by reflection

type binLeaf struct {
	off   int
	t     types.Type
	n     int // bytes
	blank bool
	priv  bool
}

// binLeaves lists the scalars of a fixed-size type; ok=false when the size is not fixed.
func binLeaves(t types.Type, off int, blank, priv bool, out []binLeaf) ([]binLeaf, bool) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		o := off
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			var ok bool
			if out, ok = binLeaves(f.Type(), o, blank || f.Name() == "_", priv || !f.Exported(), out); !ok {
				return nil, false
			}
			o += slots(f.Type())
		}
		return out, true
	case *types.Array:
		for i := 0; i < int(u.Len()); i++ {
			var ok bool
			if out, ok = binLeaves(u.Elem(), off+i*slots(u.Elem()), blank, priv, out); !ok {
				return nil, false
			}
		}
		return out, true
	case *types.Basic:
		n := 0
		switch u.Kind() {
		case types.Bool, types.Int8, types.Uint8:
			n = 1
		case types.Int16, types.Uint16:
			n = 2
		case types.Int32, types.Uint32, types.Float32:
			n = 4
		case types.Int64, types.Uint64, types.Float64:
			n = 8
		}
		if n > 0 {
			return append(out, binLeaf{off, t, n, blank, priv}), true
		}
	}
	return nil, false
}

// binFast says whether the library handles the type without reflection.
func binFast(t types.Type) bool {
	switch u := t.(type) {
	case *types.Pointer:
		t = u.Elem()
	case *types.Slice:
		t = u.Elem()
	}
	b, ok := t.(*types.Basic)
	if !ok {
		if a, isAlias := t.(*types.Alias); isAlias {
			b, ok = types.Unalias(a).(*types.Basic)
		}
	}
	if !ok {
		return false
	}
	l, ok := binLeaves(b, 0, false, false, nil)
	return ok && len(l) == 1
}

// binTarget finds where the scalars of a value are.
func (x *Exec) binTarget(e Iface) (get func(binLeaf) Val, put func(binLeaf, Val), l []binLeaf, ok bool) {
	if e.t == nil {
		return
	}
	t := e.t
	mem := func(p Ptr) {
		get = func(b binLeaf) Val { return x.load(Ptr{p.obj, p.off + b.off}, b.t) }
		put = func(b binLeaf, v Val) { x.store(Ptr{p.obj, p.off + b.off}, v, b.t) }
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, isP := e.v.(Ptr)
		if !isP {
			panic(unsup("fixed-size value behind an unknown pointer"))
		}
		if p.obj == 0 {
			return
		}
		l, ok = binLeaves(u.Elem(), 0, false, false, nil)
		if _, isS := u.Elem().Underlying().(*types.Slice); isS {
			panic(unsup("pointer to a slice as a fixed-size value"))
		}
		mem(p)
		return
	case *types.Slice:
		s := e.v.(Slice)
		n := int(x.concretise(s.len))
		for i := 0; i < n; i++ {
			if l, ok = binLeaves(u.Elem(), i*slots(u.Elem()), false, false, l); !ok {
				return
			}
		}
		_, ok = binLeaves(u.Elem(), 0, false, false, nil)
		mem(Ptr{s.obj, s.off})
		return
	}
	l, ok = binLeaves(t, 0, false, false, nil)
	get = func(b binLeaf) Val {
		if isAgg(t) {
			return e.v.(Agg)[b.off]
		}
		return e.v
	}
	return
}

func init() {
	rtTab["BinSize"] = func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
		_, put, l, ok := x.binTarget(ifaceArg(a[0]))
		into := a[1].(*Term)
		if !ok || put == nil && i64(x.c.Ite(into, x.c.Const(64, 1), x.c.Const(64, 0))) == 1 {
			return x.Int(-1), true
		}
		n := 0
		for _, b := range l {
			n += b.n
		}
		return x.Int(int64(n)), true
	}
	rtTab["BinPut"] = func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
		_, put, l, _ := x.binTarget(ifaceArg(a[0]))
		s := a[1].(Slice)
		little := i64(x.c.Ite(a[2].(*Term), x.c.Const(64, 1), x.c.Const(64, 0))) == 1
		k := 0
		for _, b := range l {
			ps := make([]*Term, b.n)
			for i := range ps {
				j := i
				if little {
					j = b.n - 1 - i
				}
				ps[i] = x.obj(s.obj).cell(s.off + k + j).(*Term)
			}
			k += b.n
			if b.blank {
				continue
			}
			if b.priv {
				panic(unsup("reflection on an unexported field"))
			}
			v := ps[0]
			if b.n > 1 {
				v = x.c.Concat(ps...)
			}
			w, _, _ := scalarW(b.t)
			switch w {
			case WBool:
				v = x.c.Not(x.c.Eq(v, x.c.Const(8, 0)))
			case WF32, WF64:
				if !v.IsConst() {
					panic(unsup("float from unknown bits"))
				}
				v = x.c.Const(w, v.c)
			}
			put(b, v)
		}
		return nil, true
	}
	rtTab["BinGet"] = func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
		get, _, l, _ := x.binTarget(ifaceArg(a[0]))
		little := i64(x.c.Ite(a[1].(*Term), x.c.Const(64, 1), x.c.Const(64, 0))) == 1
		var out []*Term
		for _, b := range l {
			var v *Term
			if b.blank {
				v = x.c.Const(8*b.n, 0)
			} else {
				v = get(b).(*Term)
				switch w, _, _ := scalarW(b.t); w {
				case WBool:
					v = x.c.Ite(v, x.c.Const(8, 1), x.c.Const(8, 0))
				case WF32, WF64:
					if !v.IsConst() {
						panic(unsup("bits of an unknown float"))
					}
					v = x.c.Const(8*b.n, v.c)
				}
			}
			for i := 0; i < b.n; i++ {
				j := i
				if !little {
					j = b.n - 1 - i
				}
				out = append(out, x.c.Extract(v, 8*j+7, 8*j))
			}
		}
		return x.newBytes(out), true
	}
	model := func(name string, arg int) intrinFn {
		return func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			e, ok := a[arg].(Iface)
			if !ok || e.t == nil || binFast(e.t) {
				return nil, false
			}
			m := x.model(name)
			if m == nil {
				return nil, false
			}
			var res Val
			if x.invokeFn(cc.th, FuncV{fn: m}, a, cc.callTo, &res, cc.site) {
				return pushedMarker, false
			}
			return res, true
		}
	}
	intrinTab["encoding/binary.Read"] = model("BinRead", 2)
	intrinTab["encoding/binary.Decode"] = model("BinDecode", 2)
	intrinTab["encoding/binary.Write"] = model("BinWrite", 2)
	intrinTab["encoding/binary.Encode"] = model("BinEncode", 2)
	intrinTab["encoding/binary.Append"] = model("BinAppend", 2)
	intrinTab["encoding/binary.Size"] = model("BinLen", 0)
}

// model finds a stand-in of the runtime's model package.
func (x *Exec) model(name string) *ssa.Function {
	for _, p := range x.prog.AllPackages() {
		if p.Pkg.Path() == x.rtPath+"/model" {
			return p.Func(name)
		}
	}
	return nil
}
