package main

import (
	"fmt"
	"go/types"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

const pageSize = 32

type page struct {
	owner int64
	objs  [pageSize]*Object
}

type Heap struct {
	pages []*page
	own   int64 // owner of the pages slice itself
	n     int   // next object id (ids start at 1)
}

var epochCtr int64

func newEpoch() int64 { return atomic.AddInt64(&epochCtr, 1) }

type deferred struct {
	fn   FuncV
	args []Val
	inv  *ssa.CallCommon
	site ssa.Instruction
}

type Frame struct {
	fn      *ssa.Function
	info    *FnInfo
	blk     *ssa.BasicBlock
	prev    *ssa.BasicBlock
	pc      int
	regs    []Val
	defers  []deferred
	callTo  ssa.Value // register in the caller receiving the result (nil: discard)
	isDefer bool
	mode    int // 0 normal, 2 panicking, 3 recovered
	exitTag bool
	onRet   func(x *Exec, v Val) Val // optional result transformer
	redo    string
	seen    map[*ssa.BasicBlock]int
}

type PanicRec struct {
	val       Val
	msg       string
	recovered bool
	where     string
}

type Thread struct {
	id     int
	frames []*Frame
	panics []*PanicRec
	// scheduling
	parked bool
	idle   bool // WaitIdle
	waitW  bool // rt.Park: until rt.Wake
	done   bool
	result Val
	name   string
}

type Input struct {
	Name string
	T    *Term
	V    uint64 // when T == nil (choice)
}

type EmitRec struct {
	Tag  string
	Vals []*Term
}

type timerRec struct {
	when   *Term
	ch     int // channel object id
	fn     FuncV
	active bool
	obj    int
}

type State struct {
	id      int
	epoch   int64
	pc      []*Term
	threads []*Thread
	cur     int
	heap    Heap
	over    map[int]*Object // modified base objects
	overOwn bool
	steps   int
	model   Model
	modelOK bool
	inputs  []Input
	names   map[string]int
	emits   []EmitRec
	clock   *Term
	timers  []timerRec
	notes   []string
	concr   int
	locks   map[string]int
	isBase  bool
	depth   int
	interl  bool
	covers  []string
	kv      map[string]Val
	exitCh  int
	forks   int
	lastSw  int
	yieldTo int
	cur2    int
	sw      bool
	trace   []string
	race    *raceState
}

func (s *State) note(n string) {
	for _, m := range s.notes {
		if m == n {
			return
		}
	}
	s.notes = append(s.notes[:len(s.notes):len(s.notes)], n)
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = append([]Val(nil), f.regs...)
	n.defers = append([]deferred(nil), f.defers...)
	return &n
}

func (x *Exec) cloneState(s *State) *State {
	n := *s
	x.nstates++
	n.id = x.nstates
	// new epochs for both so that shared objects are copied on write
	n.epoch = newEpoch()
	s.epoch = newEpoch()
	n.pc = append([]*Term(nil), s.pc...)
	n.threads = make([]*Thread, len(s.threads))
	for i, t := range s.threads {
		c := *t
		c.frames = make([]*Frame, len(t.frames))
		for j, f := range t.frames {
			c.frames[j] = f.clone()
		}
		c.panics = make([]*PanicRec, len(t.panics))
		for j, p := range t.panics {
			q := *p
			c.panics[j] = &q
		}
		n.threads[i] = &c
	}
	n.heap.pages = append([]*page(nil), s.heap.pages...)
	n.over = make(map[int]*Object, len(s.over))
	for k, v := range s.over {
		n.over[k] = v
	}
	n.inputs = append([]Input(nil), s.inputs...)
	n.names = map[string]int{}
	for k, v := range s.names {
		n.names[k] = v
	}
	n.emits = append([]EmitRec(nil), s.emits...)
	n.timers = append([]timerRec(nil), s.timers...)
	n.notes = append([]string(nil), s.notes...)
	n.covers = append([]string(nil), s.covers...)
	n.trace = append([]string(nil), s.trace...)
	n.locks = map[string]int{}
	for k, v := range s.locks {
		n.locks[k] = v
	}
	n.race = s.race.clone()
	n.kv = map[string]Val{}
	for k, v := range s.kv {
		n.kv[k] = v
	}
	if s.model != nil {
		n.model = s.model // models are immutable once set
	}
	return &n
}

// ---------- heap access

func (x *Exec) alloc(o *Object) int {
	s := x.st
	o.owner = s.epoch
	if s.isBase {
		x.base = append(x.base, o)
		return -len(x.base)
	}
	s.heap.n++
	id := s.heap.n
	pi, oi := id/pageSize, id%pageSize
	for len(s.heap.pages) <= pi {
		s.heap.pages = append(s.heap.pages, &page{owner: s.epoch})
	}
	p := s.heap.pages[pi]
	if p.owner != s.epoch {
		q := *p
		q.owner = s.epoch
		p = &q
		s.heap.pages[pi] = p
	}
	p.objs[oi] = o
	return id
}

func (x *Exec) obj(id int) *Object {
	s := x.st
	if id > 0 {
		return s.heap.pages[id/pageSize].objs[id%pageSize]
	}
	if o, ok := s.over[id]; ok {
		return o
	}
	return x.base[-id-1]
}

func (x *Exec) wobj(id int) *Object {
	s := x.st
	if id > 0 {
		pi, oi := id/pageSize, id%pageSize
		p := s.heap.pages[pi]
		o := p.objs[oi]
		if o.owner == s.epoch && p.owner == s.epoch {
			return o
		}
		if p.owner != s.epoch {
			q := *p
			q.owner = s.epoch
			p = &q
			s.heap.pages[pi] = p
		}
		if o.owner != s.epoch {
			o = o.clone(s.epoch)
			p.objs[oi] = o
		}
		return o
	}
	if s.isBase {
		return x.base[-id-1]
	}
	if o, ok := s.over[id]; ok {
		if o.owner == s.epoch {
			return o
		}
		o = o.clone(s.epoch)
		s.over[id] = o
		return o
	}
	o := x.base[-id-1].clone(s.epoch)
	if s.over == nil {
		s.over = map[int]*Object{}
	}
	s.over[id] = o
	return o
}

func (o *Object) cell(i int) Val {
	if i < len(o.cells) {
		return o.cells[i]
	}
	if o.lazy {
		return o.zero[i%len(o.zero)]
	}
	panic(unsup(fmt.Sprintf("cell %d out of object of %d cells (%v)", i, len(o.cells), o.typ)))
}

func (o *Object) grow(n int) {
	for len(o.cells) < n {
		if !o.lazy {
			panic(unsup("store out of object"))
		}
		if n > 1<<22 {
			panic(unsup("object too large"))
		}
		o.cells = append(o.cells, o.zero[len(o.cells)%len(o.zero)])
	}
}

func (x *Exec) newObj(t types.Type) int {
	return x.alloc(&Object{cells: x.zeroCells(t, nil), typ: t})
}

func (x *Exec) load(p Val, t types.Type) Val {
	switch p := p.(type) {
	case Ptr:
		o := x.obj(p.obj)
		if x.st.race != nil {
			x.access(p.obj, p.off, slots(t), false)
		}
		if !isAgg(t) {
			v := o.cell(p.off)
			if po, ok := v.(Poison); ok && !x.st.isBase {
				panic(unsup("read of unsupported value: " + po.why))
			}
			return v
		}
		n := slots(t)
		a := make(Agg, n)
		for i := 0; i < n; i++ {
			a[i] = o.cell(p.off + i)
		}
		return a
	case SymPtr:
		if !isAgg(t) {
			return x.symLoad(p, 0)
		}
		n := slots(t)
		a := make(Agg, n)
		for i := 0; i < n; i++ {
			a[i] = x.symLoad(p, i)
		}
		return a
	case Poison:
		panic(unsup("deref of unsupported value: " + p.why))
	}
	panic(unsup(fmt.Sprintf("load through %T", p)))
}

func (x *Exec) symLoad(p SymPtr, k int) Val {
	o := x.obj(p.obj)
	if x.st.race != nil {
		x.access(p.obj, p.off, p.n*p.stride, false)
	}
	vals := make([]Val, p.n)
	for i := 0; i < p.n; i++ {
		vals[i] = o.cell(p.off + i*p.stride + p.sub + k)
	}
	return x.selectVal(p.idx, vals)
}

// selectStr builds vals[idx] of short strings of one length.
func (x *Exec) selectStr(idx *Term, vals []Val) (Val, bool) {
	n := 0
	var bs [][]*Term
	for i, v := range vals {
		s, ok := v.(Str)
		if !ok || s.op != nil {
			return nil, false
		}
		b := x.strBytes(s)
		if i == 0 {
			n = len(b)
		}
		if len(b) != n || n > 16 {
			return nil, false
		}
		bs = append(bs, b)
	}
	out := make([]*Term, n)
	col := make([]Val, len(vals))
	for k := range out {
		for i := range vals {
			col[i] = bs[i][k]
		}
		out[k] = x.selectVal(idx, col).(*Term)
	}
	return x.mkStr(out), true
}

// selectVal builds vals[idx] for an in-range idx.
func (x *Exec) selectVal(idx *Term, vals []Val) Val {
	t0, ok := vals[0].(*Term)
	if !ok {
		if s, ok := x.selectStr(idx, vals); ok {
			return s
		}
		// non-scalar elements: concretise
		i := x.concretise(idx)
		return vals[int(i)]
	}
	// linear table over GF(2): t[a^b]=t[a]^t[b]
	n := len(vals)
	if !isFP(t0.w) && t0.w > 0 && n >= 4 && n&(n-1) == 0 {
		allc := true
		for _, v := range vals {
			if !v.(*Term).IsConst() {
				allc = false
				break
			}
		}
		if allc {
			base := vals[0].(*Term).c
			lin := true
			for i := 1; i < n && lin; i++ {
				low := i & -i
				if i != low {
					if (vals[i].(*Term).c ^ base) != (vals[low].(*Term).c^base)^(vals[i^low].(*Term).c^base) {
						lin = false
					}
				}
			}
			if lin {
				r := x.c.Const(t0.w, base)
				for b := 0; 1<<uint(b) < n; b++ {
					d := vals[1<<uint(b)].(*Term).c ^ base
					bit := x.c.Extract(idx, b, b)
					r = x.c.Ite(x.c.Eq(bit, x.c.Const(1, 1)), x.c.Xor(r, x.c.Const(t0.w, d)), r)
				}
				return r
			}
		}
	}
	r := vals[n-1].(*Term)
	for i := n - 2; i >= 0; i-- {
		r = x.c.Ite(x.c.Eq(idx, x.c.Const(idx.w, uint64(i))), vals[i].(*Term), r)
	}
	return r
}

func (x *Exec) store(p Val, v Val, t types.Type) {
	switch p := p.(type) {
	case Ptr:
		if x.st.race != nil {
			x.access(p.obj, p.off, slots(t), true)
		}
		o := x.wobj(p.obj)
		if a, ok := v.(Agg); ok && isAgg(t) {
			o.grow(p.off + len(a))
			copy(o.cells[p.off:], a)
			return
		}
		if po, ok := v.(Poison); ok && isAgg(t) {
			n := slots(t)
			o.grow(p.off + n)
			for i := 0; i < n; i++ {
				o.cells[p.off+i] = po
			}
			return
		}
		o.grow(p.off + 1)
		o.cells[p.off] = v
		return
	case SymPtr:
		nv, ok := v.(*Term)
		if !ok {
			i := x.concretise(p.idx)
			x.store(Ptr{p.obj, p.off + int(i)*p.stride + p.sub}, v, t)
			return
		}
		if x.st.race != nil {
			x.access(p.obj, p.off, p.n*p.stride, true)
		}
		o := x.wobj(p.obj)
		o.grow(p.off + p.n*p.stride)
		for i := 0; i < p.n; i++ {
			k := p.off + i*p.stride + p.sub
			old := o.cells[k].(*Term)
			o.cells[k] = x.c.Ite(x.c.Eq(p.idx, x.c.Const(p.idx.w, uint64(i))), nv, old)
		}
		return
	case Poison:
		if x.st.isBase {
			return
		}
		panic(unsup("store through unsupported value: " + p.why))
	}
	panic(unsup(fmt.Sprintf("store through %T", p)))
}

func (x *Exec) Int(v int64) *Term { return x.c.Const(64, uint64(v)) }

// bytes of a slice with concrete length
func (x *Exec) sliceTerms(s Slice) []*Term {
	n := int(x.concretise(s.len))
	r := make([]*Term, n)
	if n == 0 {
		return r
	}
	o := x.obj(s.obj)
	x.accessSlice(s, n, 1, false)
	for i := range r {
		t, ok := o.cell(s.off + i).(*Term)
		if !ok {
			panic(unsup("slice of non-scalars"))
		}
		r[i] = t
	}
	return r
}

func (x *Exec) newBytes(b []*Term) Slice {
	cells := make([]Val, len(b))
	for i, t := range b {
		cells[i] = t
	}
	id := x.alloc(&Object{cells: cells})
	n := x.Int(int64(len(b)))
	return Slice{obj: id, len: n, cap: n}
}
