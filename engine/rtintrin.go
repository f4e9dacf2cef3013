package main

import (
	"fmt"
	"go/types"
)

var rtTab map[string]intrinFn

func (x *Exec) freshName(name string) string {
	k := x.st.names[name]
	x.st.names[name] = k + 1
	return fmt.Sprintf("%s#%d", name, k)
}

func (x *Exec) input(name string, w int) *Term {
	n := x.freshName(name)
	t := x.c.Var(n, w)
	x.st.inputs = append(x.st.inputs, Input{Name: n, T: t})
	return t
}

func inVar(w int) intrinFn {
	return func(x *Exec, cc *CallCtx, a []Val) (Val, bool) { return x.input(str(x, a[0]), w), true }
}

func (x *Exec) boolList(v Val) []*Term {
	s := v.(Slice)
	n := int(i64(s.len))
	r := make([]*Term, n)
	for k := range r {
		r[k] = x.obj(s.obj).cell(s.off + k).(*Term)
	}
	return r
}

func init() {
	rtTab = map[string]intrinFn{
		"Byte": inVar(8), "U16": inVar(16), "U32": inVar(32), "U64": inVar(64), "Bool": inVar(WBool), "F64": inVar(WF64),
		"Bytes": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			n := int(x.concretise(a[1].(*Term)))
			nm := str(x, a[0])
			b := make([]*Term, n)
			for i := range b {
				b[i] = x.input(fmt.Sprintf("%s.%d", nm, i), 8)
			}
			return x.newBytes(b), true
		},
		"Known": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			return x.c.Bool(a[0].(Str).op == nil), true
		},
		"String": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			n := int(x.concretise(a[1].(*Term)))
			nm := str(x, a[0])
			b := make([]*Term, n)
			for i := range b {
				b[i] = x.input(fmt.Sprintf("%s.%d", nm, i), 8)
			}
			return x.mkStr(b), true
		},
		"Bits": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			n := int(x.concretise(a[1].(*Term)))
			nm := str(x, a[0])
			b := make([]*Term, n)
			for i := range b {
				nn := x.freshName(fmt.Sprintf("%s.%d", nm, i))
				t := x.c.Var(nn, 1)
				x.st.inputs = append(x.st.inputs, Input{Name: nn, T: t})
				b[i] = x.c.Concat(x.c.Const(7, 0x18), t)
			}
			return x.mkStr(b), true
		},
		"Choose": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			n := int(x.concretise(a[1].(*Term)))
			nm := str(x, a[0])
			if n <= 1 {
				// keep the numbering used by the native runtime
				x.freshName(nm)
				return x.i0, true
			}
			v := x.chooseInput(nm, n)
			return x.Int(int64(v)), true
		},
		"Param": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			if v, ok := x.params[str(x, a[0])]; ok {
				return x.Int(v), true
			}
			return a[1], true
		},
		"Race": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			x.st.race = nil
			if a[0].(*Term).IsTrue() {
				x.st.race = &raceState{sync: map[string][]int{}, cells: map[raceKey]raceCell{}, seen: map[string]bool{}}
			}
			return nil, true
		},
		"Reads": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			x.handed(a[0].(Slice), false)
			return nil, true
		},
		"Writes": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			x.handed(a[0].(Slice), true)
			return nil, true
		},
		"Symbolic": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) { return x.c.True, true },
		"Assume":   func(x *Exec, cc *CallCtx, a []Val) (Val, bool) { x.assume(a[0].(*Term)); return nil, true },
		"Assert": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			x.assert(a[0].(*Term), str(x, a[1]))
			return nil, true
		},
		"Cover": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			n := str(x, a[0])
			for _, c := range x.st.covers {
				if c == n {
					return nil, true
				}
			}
			x.st.covers = append(x.st.covers, n)
			return nil, true
		},
		"Emit": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			x.st.emits = append(x.st.emits, EmitRec{Tag: str(x, a[0]), Vals: x.boolList(a[1])})
			return nil, true
		},
		"B2U":      inB2U,
		"FromBool": inB2U,
		"And": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			r := x.c.True
			for _, t := range x.boolList(a[0]) {
				r = x.c.And(r, t)
			}
			return r, true
		},
		"Or": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			r := x.c.False
			for _, t := range x.boolList(a[0]) {
				r = x.c.Or(r, t)
			}
			return r, true
		},
		"Implies": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			return x.c.Implies(a[0].(*Term), a[1].(*Term)), true
		},
		"Ite": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			return x.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term)), true
		},
		"EqBytes": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			sa, sb := a[0].(Slice), a[1].(Slice)
			if !x.decide(x.c.Eq(sa.len, sb.len)) {
				return x.c.False, true
			}
			return x.strEq(Str{b: x.sliceTerms(sa)}.norm(x), Str{b: x.sliceTerms(sb)}.norm(x)), true
		},
		"EqStr": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) { return x.strEq(a[0].(Str), a[1].(Str)), true },
		"Concrete": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			return x.Int(int64(x.concretise(a[0].(*Term)))), true
		},
		"Park": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			// park once: the call completes when something wakes the goroutine
			k := fmt.Sprintf("parked:%d", cc.th.id)
			if x.st.kv[k] != nil {
				x.st.kv[k] = nil
				return nil, true
			}
			x.st.kv[k] = 1
			cc.th.parked, cc.th.waitW = true, true
			return nil, true
		},
		"Wake": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			for _, t := range x.st.threads {
				if t.waitW {
					t.waitW, t.parked = false, false
				}
			}
			return nil, true
		},
		"Yield": inYield,
		"Busy":  func(x *Exec, cc *CallCtx, a []Val) (Val, bool) { return nil, true },
		"WaitIdle": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			k := fmt.Sprintf("idled:%d", cc.th.id)
			if x.st.kv[k] != nil {
				x.st.kv[k] = nil
				return nil, true
			}
			x.st.kv[k] = 1
			cc.th.idle = true
			cc.th.parked = true
			return nil, true
		},
		"Interleave": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			x.st.interl = a[0].(*Term).IsTrue()
			return nil, true
		},
		"Advance": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) { x.advance(a[0].(*Term)); return nil, true },
		"Now":     func(x *Exec, cc *CallCtx, a []Val) (Val, bool) { return x.c.Add(x.st.clock, x.Int(epochClock)), true },
		"Note":    func(x *Exec, cc *CallCtx, a []Val) (Val, bool) { x.st.note(str(x, a[0])); return nil, true },
		"CatchExit": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			f := a[0].(FuncV)
			fr := x.pushFrame(cc.th, f.fn, nil, f.bind, cc.callTo)
			fr.exitTag = true
			fr.onRet = func(x *Exec, v Val) Val { return x.Int(-1) }
			return pushedMarker, false
		},
	}
}

func inB2U(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
	t := a[0].(*Term)
	return x.c.Ite(t, x.c.Const(64, 1), x.c.Const(64, 0)), true
}

// chooseInput is choose() under a harness-visible name.
func (x *Exec) chooseInput(name string, n int) int {
	s := x.st
	key := fmt.Sprintf("%s#%d", name, s.names[name])
	if v, ok := s.kv["choice:"+key]; ok {
		s.names[name]++
		return v.(int)
	}
	for i := n - 1; i >= 1; i-- {
		o := x.cloneState(s)
		o.kv["choice:"+key] = i
		o.inputs = append(o.inputs, Input{Name: key, V: uint64(i)})
		x.pushWork(o)
	}
	s.kv["choice:"+key] = 0
	s.inputs = append(s.inputs, Input{Name: key, V: 0})
	s.names[name]++
	return 0
}

var _ = types.Universe
