package main

import (
	"bytes"
	"compress/gzip"
	"go/types"
	"io"
)

// looking into values for the harnesses
const (
	kNil = iota
	kBool
	kInt
	kUint
	kFloat
	kString
	kStruct
	kSlice
	kPtr
	kMap
	kOther
)

func kindOf(t types.Type) int {
	if t == nil {
		return kNil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return kBool
		case i&types.IsString != 0:
			return kString
		case i&types.IsFloat != 0:
			return kFloat
		case i&types.IsUnsigned != 0:
			return kUint
		case i&types.IsInteger != 0:
			return kInt
		}
	case *types.Struct:
		return kStruct
	case *types.Slice:
		return kSlice
	case *types.Pointer:
		return kPtr
	case *types.Map:
		return kMap
	}
	return kOther
}

func ifaceArg(v Val) Iface {
	e, ok := v.(Iface)
	if !ok {
		panic(unsup("reflection on an unknown value"))
	}
	return e
}

func init() {
	rtTab["Kind"] = func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
		return x.Int(int64(kindOf(ifaceArg(a[0]).t))), true
	}
	structOf := func(e Iface) (*types.Struct, bool) {
		t := e.t
		ptr := false
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t, ptr = p.Elem(), true
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			panic(unsup("field of " + e.t.String()))
		}
		return st, ptr
	}
	rtTab["NumField"] = func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
		st, _ := structOf(ifaceArg(a[0]))
		return x.Int(int64(st.NumFields())), true
	}
	rtTab["Field"] = func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
		e := ifaceArg(a[0])
		st, ptr := structOf(e)
		i := int(i64(a[1].(*Term)))
		fd := st.Field(i)
		f := Iface{}
		if fd.Exported() {
			off := fieldOff(st, i)
			if ptr {
				p := e.v.(Ptr)
				f = Iface{t: types.NewPointer(fd.Type()), v: Ptr{p.obj, p.off + off}}
			} else if isAgg(fd.Type()) {
				f = Iface{t: fd.Type(), v: append(Agg(nil), e.v.(Agg)[off:off+slots(fd.Type())]...)}
			} else {
				f = Iface{t: fd.Type(), v: e.v.(Agg)[off]}
			}
		}
		return Agg{f, cstr(fd.Name()), cstr(st.Tag(i)), x.c.Bool(fd.Embedded())}, true
	}
	rtTab["Deref"] = func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
		e := ifaceArg(a[0])
		p, ok := e.v.(Ptr)
		if !ok {
			panic(unsup("dereference of an unknown pointer"))
		}
		if p.obj == 0 {
			return Iface{}, true
		}
		t := e.t.Underlying().(*types.Pointer).Elem()
		v := x.load(p, t)
		if _, ok := t.Underlying().(*types.Interface); ok {
			return v, true
		}
		return Iface{t: t, v: v}, true
	}
	rtTab["Len"] = func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
		s := ifaceArg(a[0]).v.(Slice)
		if s.obj == 0 {
			return x.Int(-1), true
		}
		return s.len, true
	}
	rtTab["Elem"] = func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
		e := ifaceArg(a[0])
		s := e.v.(Slice)
		t := e.t.Underlying().(*types.Slice).Elem()
		v := x.load(Ptr{s.obj, s.off + int(i64(a[1].(*Term)))*slots(t)}, t)
		if _, ok := t.Underlying().(*types.Interface); ok {
			return v, true
		}
		return Iface{t: t, v: v}, true
	}
	rtTab["Swap"] = func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
		e := ifaceArg(a[0])
		s := e.v.(Slice)
		t := e.t.Underlying().(*types.Slice).Elem()
		p := Ptr{s.obj, s.off + int(i64(a[1].(*Term)))*slots(t)}
		q := Ptr{s.obj, s.off + int(i64(a[2].(*Term)))*slots(t)}
		u, v := x.load(p, t), x.load(q, t)
		x.store(p, v, t)
		x.store(q, u, t)
		return nil, true
	}
	rtTab["AppendNew"] = func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
		e := ifaceArg(a[0])
		pt := e.t.Underlying().(*types.Pointer).Elem()
		et := pt.Underlying().(*types.Slice).Elem()
		s := x.load(e.v.(Ptr), pt).(Slice)
		var cells []Val
		if s.obj != 0 {
			o := x.obj(s.obj)
			for i := 0; i < int(i64(s.len)); i++ {
				cells = append(cells, o.cell(s.off+i))
			}
		}
		p := Ptr{obj: x.newObj(et.Underlying().(*types.Pointer).Elem())}
		cells = append(cells, p)
		id := x.alloc(&Object{cells: cells})
		n := x.Int(int64(len(cells)))
		x.store(e.v.(Ptr), Slice{obj: id, len: n, cap: n}, pt)
		return Iface{t: et, v: p}, true
	}
	rtTab["Gunzip"] = func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
		var in []byte
		for _, t := range x.sliceTerms(a[0].(Slice)) {
			if !t.IsConst() {
				panic(unsup("unpacking of unknown bytes"))
			}
			in = append(in, byte(t.c))
		}
		r, err := gzip.NewReader(bytes.NewReader(in))
		if err != nil {
			panic(unsup("unpacking: " + err.Error()))
		}
		b, err := io.ReadAll(r)
		if err != nil {
			panic(unsup("unpacking: " + err.Error()))
		}
		out := make([]*Term, len(b))
		for i, c := range b {
			out[i] = x.c.Const(8, uint64(c))
		}
		return x.newBytes(out), true
	}
	rtTab["Scalar"] = func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
		e := ifaceArg(a[0])
		v := e.v.(*Term)
		w, signed, _ := scalarW(e.t)
		if w == WBool {
			return x.c.Ite(v, x.c.Const(64, 1), x.c.Const(64, 0)), true
		}
		if v.w == 64 {
			return v, true
		}
		if signed {
			return x.c.Sext(v, 64), true
		}
		return x.c.Zext(v, 64), true
	}
	rtTab["Float"] = func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
		v := ifaceArg(a[0]).v.(*Term)
		if v.w != WF64 {
			panic(unsup("float of another width"))
		}
		return v, true
	}
	rtTab["Text"] = func(x *Exec, cc *CallCtx, a []Val) (Val, bool) { return ifaceArg(a[0]).v.(Str), true }
}
