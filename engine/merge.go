package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// tryMerge if-converts a branch whose two sides are small, free of side effects and
// cannot panic: both sides are evaluated and joined with ite terms.

type mergeAbort struct{}

type region struct {
	x     *Exec
	f     *Frame
	join  *ssa.BasicBlock // nil: function exit
	steps int
}

type regRes struct {
	phis []Val // values of the phis of join, or results of Return
	mem  map[Ptr]memW
}

// memW is a pending write of one cell.
type memW struct {
	v Val
	t types.Type
}

func memKeys(m map[Ptr]memW) []Ptr {
	var ks []Ptr
	for p := range m {
		ks = append(ks, p)
	}
	sort.Slice(ks, func(i, j int) bool {
		if ks[i].obj != ks[j].obj {
			return ks[i].obj < ks[j].obj
		}
		return ks[i].off < ks[j].off
	})
	return ks
}

func copyMem(m map[Ptr]memW) map[Ptr]memW {
	if len(m) == 0 {
		return nil
	}
	n := make(map[Ptr]memW, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (x *Exec) tryMerge(th *Thread, f *Frame, cond *Term) (ok bool) {
	if x.params["nomerge"] != 0 || x.st.isBase {
		return false
	}
	ip := f.info.ipdom[f.blk.Index]
	if ip < 0 {
		return false
	}
	var join *ssa.BasicBlock
	if ip < len(f.fn.Blocks) {
		join = f.fn.Blocks[ip]
		if join == f.blk {
			return false
		}
	} else if len(f.defers) > 0 {
		return false
	}
	if x.mergeBad[f.blk] > 3 {
		return false
	}
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case mergeAbort, unsupported:
				x.mergeBad[f.blk]++
				ok = false
				return
			}
			panic(r)
		}
	}()
	rg := &region{x: x, f: f, join: join}
	env := map[ssa.Value]Val{}
	a := rg.run(f.blk.Succs[0], f.blk, env, nil, 0)
	b := rg.run(f.blk.Succs[1], f.blk, map[ssa.Value]Val{}, nil, 0)
	m := rg.mergeRes(cond, a, b)
	x.Merges++
	for _, p := range memKeys(m.mem) {
		w := m.mem[p]
		x.store(p, w.v, w.t)
	}
	if join == nil {
		var v Val
		switch len(m.phis) {
		case 0:
		case 1:
			v = m.phis[0]
		default:
			v = Agg(m.phis)
		}
		th.frames = th.frames[:len(th.frames)-1]
		x.afterReturn(th, f, v)
		return true
	}
	n := 0
	for _, ins := range join.Instrs {
		ph, isPhi := ins.(*ssa.Phi)
		if !isPhi {
			break
		}
		x.set(f, ph, m.phis[n])
		n++
	}
	f.prev = f.blk
	f.blk = join
	f.pc = n
	return true
}

func (r *region) get(v ssa.Value, env map[ssa.Value]Val) Val {
	if e, ok := env[v]; ok {
		return e
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return r.x.get(r.f, v)
	}
	w := r.f.regs[r.f.info.idx[v]]
	if w == nil {
		panic(mergeAbort{})
	}
	return w
}

func (r *region) mergeRes(cond *Term, a, b regRes) regRes {
	var types_ []types.Type
	if r.join != nil {
		for _, ins := range r.join.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			types_ = append(types_, ph.Type())
		}
	} else {
		rs := r.f.fn.Signature.Results()
		for i := 0; i < rs.Len(); i++ {
			types_ = append(types_, rs.At(i).Type())
		}
	}
	if len(a.phis) != len(b.phis) || len(types_) != len(a.phis) {
		panic(mergeAbort{})
	}
	out := regRes{}
	for _, p := range memKeys(a.mem) {
		w := a.mem[p]
		o, ok := b.mem[p]
		if !ok {
			o = memW{r.x.load(p, w.t), w.t}
		}
		if !types.Identical(w.t, o.t) {
			panic(mergeAbort{})
		}
		if out.mem == nil {
			out.mem = map[Ptr]memW{}
		}
		out.mem[p] = memW{r.mergeVal(cond, w.v, o.v, w.t), w.t}
	}
	for _, p := range memKeys(b.mem) {
		w := b.mem[p]
		if _, ok := a.mem[p]; ok {
			continue
		}
		if out.mem == nil {
			out.mem = map[Ptr]memW{}
		}
		out.mem[p] = memW{r.mergeVal(cond, r.x.load(p, w.t), w.v, w.t), w.t}
	}
	for i := range a.phis {
		out.phis = append(out.phis, r.mergeVal(cond, a.phis[i], b.phis[i], types_[i]))
	}
	return out
}

func (r *region) mergeVal(cond *Term, a, b Val, t types.Type) Val {
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if ok1 && ok2 {
		if ta == tb {
			return ta
		}
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Int {
			panic(mergeAbort{}) // lengths and indexes stay concrete
		}
		return r.x.c.Ite(cond, ta, tb)
	}
	sa, ok1 := a.(Str)
	sb, ok2 := b.(Str)
	if ok1 && ok2 {
		if r.x.key(sa) == r.x.key(sb) {
			return sa
		}
		if sa.op == nil && sb.op == nil {
			ba, bb := r.x.strBytes(sa), r.x.strBytes(sb)
			if len(ba) == len(bb) && len(ba) <= 16 {
				o := make([]*Term, len(ba))
				for i := range ba {
					o[i] = r.x.c.Ite(cond, ba[i], bb[i])
				}
				return r.x.mkStr(o)
			}
		}
		panic(mergeAbort{})
	}
	switch av := a.(type) {
	case Ptr:
		if bv, ok := b.(Ptr); ok && av == bv {
			return a
		}
	case Iface:
		if bv, ok := b.(Iface); ok && (av.t == nil && bv.t == nil) {
			return a
		}
		if bv, ok := b.(Iface); ok && av.t != nil && bv.t != nil && types.Identical(av.t, bv.t) {
			pa, o1 := av.v.(Ptr)
			pb, o2 := bv.v.(Ptr)
			if o1 && o2 && pa == pb {
				return a
			}
		}
	case Slice:
		if bv, ok := b.(Slice); ok && av == bv {
			return a
		}
	case MapV:
		if bv, ok := b.(MapV); ok && av == bv {
			return a
		}
	case Agg:
		if bv, ok := b.(Agg); ok && len(av) == len(bv) {
			o := make(Agg, len(av))
			for i := range av {
				o[i] = r.mergeVal(cond, av[i], bv[i], types.Typ[types.Bool])
			}
			return o
		}
	}
	panic(mergeAbort{})
}

func (r *region) run(blk, prev *ssa.BasicBlock, env map[ssa.Value]Val, mem map[Ptr]memW, depth int) regRes {
	x := r.x
	mem = copyMem(mem)
	if depth > 12 {
		panic(mergeAbort{})
	}
	for {
		pi := -1
		for i, p := range blk.Preds {
			if p == prev {
				pi = i
				break
			}
		}
		if blk == r.join {
			out := regRes{mem: mem}
			for _, ins := range blk.Instrs {
				ph, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				out.phis = append(out.phis, r.get(ph.Edges[pi], env))
			}
			return out
		}
		var vals []Val
		for _, ins := range blk.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			vals = append(vals, r.get(ph.Edges[pi], env))
		}
		for i, v := range vals {
			env[blk.Instrs[i].(*ssa.Phi)] = v
		}
		next := (*ssa.BasicBlock)(nil)
		for _, ins := range blk.Instrs[len(vals):] {
			r.steps++
			if r.steps > 400 {
				panic(mergeAbort{})
			}
			switch i := ins.(type) {
			case *ssa.DebugRef:
			case *ssa.BinOp:
				a, b := r.get(i.X, env), r.get(i.Y, env)
				switch i.Op {
				case token.QUO, token.REM:
					if t, ok := b.(*Term); !ok || (!isFP(t.w) && (!t.IsConst() || t.c == 0)) {
						panic(mergeAbort{})
					}
				case token.SHL, token.SHR:
					if t, ok := b.(*Term); ok && !t.IsConst() {
						if _, s, _ := scalarW(i.Y.Type()); s && t.slo < 0 {
							panic(mergeAbort{})
						}
					}
				case token.EQL, token.NEQ:
					// fine
				}
				v, ok := x.binop(i.Op, a, b, i.X.Type(), i.Y.Type())
				if !ok {
					panic(mergeAbort{})
				}
				env[i] = v
			case *ssa.UnOp:
				v := r.get(i.X, env)
				switch i.Op {
				case token.MUL:
					p, ok := v.(Ptr)
					if !ok || p.obj == 0 {
						panic(mergeAbort{})
					}
					if len(mem) > 0 && isAgg(i.Type()) {
						panic(mergeAbort{})
					}
					if w, ok := mem[p]; ok {
						if !types.Identical(w.t, i.Type()) {
							panic(mergeAbort{})
						}
						env[i] = w.v
					} else {
						env[i] = x.load(p, i.Type())
					}
				case token.NOT:
					env[i] = x.c.Not(v.(*Term))
				case token.SUB:
					t := v.(*Term)
					if isFP(t.w) {
						env[i] = x.c.FNeg(t)
					} else {
						env[i] = x.c.Neg(t)
					}
				case token.XOR:
					env[i] = x.c.BNot(v.(*Term))
				default:
					panic(mergeAbort{})
				}
			case *ssa.FieldAddr:
				p, ok := r.get(i.X, env).(Ptr)
				if !ok || p.obj == 0 {
					panic(mergeAbort{})
				}
				st := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
				env[i] = Ptr{p.obj, p.off + fieldOff(st, i.Field)}
			case *ssa.IndexAddr:
				idx, ok := r.get(i.Index, env).(*Term)
				if p, isArr := r.get(i.X, env).(Ptr); isArr {
					ar := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
					if !ok || p.obj == 0 || !idx.IsConst() || idx.c >= uint64(ar.Len()) {
						panic(mergeAbort{})
					}
					env[i] = Ptr{p.obj, p.off + int(idx.c)*slots(ar.Elem())}
					continue
				}
				s, ok2 := r.get(i.X, env).(Slice)
				if !ok || !ok2 || !idx.IsConst() || !s.len.IsConst() || idx.c >= s.len.c {
					panic(mergeAbort{})
				}
				es := slots(i.X.Type().Underlying().(*types.Slice).Elem())
				env[i] = Ptr{s.obj, s.off + int(idx.c)*es}
			case *ssa.Store:
				p, ok := r.get(i.Addr, env).(Ptr)
				v := r.get(i.Val, env)
				t := i.Val.Type()
				if !ok || p.obj == 0 || isAgg(t) {
					panic(mergeAbort{})
				}
				switch v.(type) {
				case *Term, Str:
				default:
					panic(mergeAbort{})
				}
				if mem == nil {
					mem = map[Ptr]memW{}
				}
				mem[p] = memW{v, t}
			case *ssa.Convert:
				if _, _, ok := scalarW(i.X.Type()); !ok {
					panic(mergeAbort{})
				}
				if _, _, ok := scalarW(i.Type()); !ok {
					panic(mergeAbort{})
				}
				env[i] = x.convert(r.get(i.X, env), i.X.Type(), i.Type())
			case *ssa.ChangeType:
				env[i] = r.get(i.X, env)
			case *ssa.Extract:
				a, ok := r.get(i.Tuple, env).(Agg)
				if !ok {
					panic(mergeAbort{})
				}
				env[i] = a[i.Index]
			case *ssa.Jump:
				next = blk.Succs[0]
			case *ssa.If:
				c, ok := r.get(i.Cond, env).(*Term)
				if !ok {
					panic(mergeAbort{})
				}
				if k := x.known(c); k >= 0 {
					if k == 1 {
						next = blk.Succs[0]
					} else {
						next = blk.Succs[1]
					}
					break
				}
				e1 := map[ssa.Value]Val{}
				for k, v := range env {
					e1[k] = v
				}
				a := r.run(blk.Succs[0], blk, e1, mem, depth+1)
				b := r.run(blk.Succs[1], blk, env, mem, depth+1)
				return r.mergeRes(c, a, b)
			case *ssa.Return:
				if r.join != nil {
					panic(mergeAbort{})
				}
				out := regRes{mem: mem}
				for _, v := range i.Results {
					out.phis = append(out.phis, r.get(v, env))
				}
				return out
			default:
				panic(mergeAbort{})
			}
		}
		if next == nil {
			panic(mergeAbort{})
		}
		prev, blk = blk, next
	}
}
