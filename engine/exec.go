package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnInfo struct {
	idx   map[ssa.Value]int
	n     int
	ipdom []int // immediate post-dominator block index, len(Blocks) = exit, -1 none
}

var fnInfos sync.Map

func fnInfo(fn *ssa.Function) *FnInfo {
	if v, ok := fnInfos.Load(fn); ok {
		return v.(*FnInfo)
	}
	in := &FnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) { in.idx[v] = in.n; in.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	in.ipdom = postdoms(fn)
	fnInfos.Store(fn, in)
	return in
}

// postdoms computes immediate post-dominators with a virtual exit node.
func postdoms(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	exit := n
	// bitset iteration (functions are small)
	type set []uint64
	words := (n + 1 + 63) / 64
	full := func() set {
		s := make(set, words)
		for i := 0; i <= n; i++ {
			s[i/64] |= 1 << uint(i%64)
		}
		return s
	}
	pd := make([]set, n+1)
	for i := 0; i < n; i++ {
		pd[i] = full()
	}
	pd[exit] = make(set, words)
	pd[exit][exit/64] |= 1 << uint(exit%64)
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			ns := full()
			if len(b.Succs) == 0 {
				copy(ns, pd[exit])
			} else {
				for _, s := range b.Succs {
					for w := range ns {
						ns[w] &= pd[s.Index][w]
					}
				}
			}
			ns[i/64] |= 1 << uint(i%64)
			for w := range ns {
				if ns[w] != pd[i][w] {
					pd[i] = ns
					changed = true
					break
				}
			}
		}
	}
	cnt := func(s set) int {
		c := 0
		for i := 0; i <= n; i++ {
			if s[i/64]&(1<<uint(i%64)) != 0 {
				c++
			}
		}
		return c
	}
	res := make([]int, n)
	for i := 0; i < n; i++ {
		res[i] = -1
		ci := cnt(pd[i])
		for j := 0; j <= n; j++ {
			if j != i && pd[i][j/64]&(1<<uint(j%64)) != 0 && cnt(pd[j]) == ci-1 {
				res[i] = j
				break
			}
		}
	}
	return res
}

type Outcome struct {
	Kind   string // ok, assert, panic, exit, deadlock, unsupported, bound
	Msg    string
	Where  string
	State  *State
	Inputs map[string]uint64
	ModelK bool
}

type Candidate struct {
	Kind, Msg, Where string
	Inputs           map[string]uint64
	Emits            []string
	Confirmed        bool
	Native           string
	hadModel         bool
}

type Witness struct {
	Inputs map[string]uint64
	Emits  []string
	Kind   string
	Msg    string
}

type Limits struct {
	MaxPaths int
	MaxSteps int
	MaxConcr int
	Deadline time.Time
}

type Exec struct {
	prog   *ssa.Program
	c      *TermCtx
	sol    *Solver
	st     *State
	base   []*Object
	globs  map[*ssa.Global]int
	inited map[*ssa.Package]int
	bst    *State
	work   []*State
	i0     *Term

	nstates   int
	lim       Limits
	params    map[string]int64
	redirects map[string]*ssa.Function
	rtPath    string
	modPath   string
	usedPool  bool
	attrs     map[*ssa.Function]int

	// results
	Cands      []Candidate
	candSeen   map[string]int
	Witnesses  []Witness
	maxWit     int
	Paths      int
	PathKinds  map[string]int
	Steps      int
	Unsup      map[string]int
	unsupIn    []Candidate
	Unknowns   int
	Asserts    int
	AssertQ    int
	Covers     map[string]int
	CoverDecl  map[string]bool
	FuncsSeen  map[*ssa.Function]bool
	NotesSeen  map[string]int
	Incomplete string
	Merges     int
	rnd        uint64
	restart    bool
	debug      bool
	killed     bool
	retSlot    Val
	mergeBad   map[*ssa.BasicBlock]int
	ForkAt     map[string]int
}

func NewExec(prog *ssa.Program, params map[string]int64, lim Limits, solverTO time.Duration) *Exec {
	c := NewTermCtx()
	x := &Exec{prog: prog, c: c, sol: NewSolver(c, solverTO), globs: map[*ssa.Global]int{}, inited: map[*ssa.Package]int{},
		params: params, lim: lim, candSeen: map[string]int{}, PathKinds: map[string]int{}, Unsup: map[string]int{},
		Covers: map[string]int{}, CoverDecl: map[string]bool{}, FuncsSeen: map[*ssa.Function]bool{}, NotesSeen: map[string]int{}, redirects: map[string]*ssa.Function{}, mergeBad: map[*ssa.BasicBlock]int{}, ForkAt: map[string]int{}}
	x.i0 = x.Int(0)
	x.attrs = map[*ssa.Function]int{}
	x.bst = &State{epoch: newEpoch(), isBase: true, names: map[string]int{}, locks: map[string]int{}, kv: map[string]Val{}, model: Model{}, modelOK: true, clock: x.i0}
	return x
}

var forkStat = os.Getenv("VFORKS") != ""

type killPath struct{ kind, msg string }

// RunHarness explores every path of fn.
func (x *Exec) RunHarness(fn *ssa.Function) {
	s := &State{epoch: newEpoch(), names: map[string]int{}, locks: map[string]int{}, kv: map[string]Val{}, model: Model{}, modelOK: true, clock: x.i0, over: map[int]*Object{}}
	x.st = s
	th := &Thread{id: 0, name: "main"}
	s.threads = []*Thread{th}
	x.pushFrame(th, fn, nil, nil, nil)
	x.work = []*State{s}
	for len(x.work) > 0 {
		if x.Paths >= x.lim.MaxPaths {
			x.Incomplete = fmt.Sprintf("path limit %d reached, %d states pending", x.lim.MaxPaths, len(x.work))
			break
		}
		if time.Now().After(x.lim.Deadline) {
			x.Incomplete = fmt.Sprintf("time limit reached after %d paths, %d states pending", x.Paths, len(x.work))
			break
		}
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.runState(s)
	}
	x.sol.Close()
}

func (x *Exec) runState(s *State) {
	x.st = s
	kind, msg := x.loop(s)
	x.endPath(s, kind, msg)
}

func (x *Exec) loop(s *State) (kind, msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case killPath:
				kind, msg = v.kind, v.msg
			case unsupported:
				kind, msg = "unsupported", v.msg+" @ "+x.where()
			default:
				if x.debug {
					panic(r)
				}
				kind, msg = "unsupported", fmt.Sprintf("engine: %v @ %s", r, x.where())
			}
		}
	}()
	for {
		if s.sw {
			// a yield takes effect after the instruction has completed
			s.sw = false
			s.cur = s.cur2
		}
		th := s.threads[s.cur]
		if th.done || th.parked {
			if !x.schedule() {
				return "ok", ""
			}
			continue
		}
		if len(th.frames) == 0 {
			th.done = true
			if th.id == 0 {
				return "ok", ""
			}
			continue
		}
		s.steps++
		x.Steps++
		if s.steps > x.lim.MaxSteps {
			return "bound", "step limit @ " + x.where()
		}
		if s.steps&0xfff == 0 && time.Now().After(x.lim.Deadline.Add(5*time.Second)) {
			return "bound", "time limit"
		}
		x.step(s, th)
	}
}

// schedule picks another runnable thread; false when the main thread can never continue.
func (x *Exec) schedule() bool {
	s := x.st
	var run []int
	for i, t := range s.threads {
		if !t.done && !t.parked {
			run = append(run, i)
		}
	}
	if len(run) == 0 {
		for i, t := range s.threads {
			if t.idle && !t.done {
				t.idle = false
				t.parked = false
				s.cur = i
				return true
			}
		}
		if s.threads[0].done {
			return false
		}
		if x.fireNext() {
			return true
		}
		panic(killPath{"deadlock", "all goroutines are asleep"})
	}
	k := 0
	if s.interl && len(run) > 1 {
		k = x.choose("sched", len(run))
	}
	s.cur = run[k]
	return true
}

// choose forks n ways on a concrete choice. Must be called before side effects.
func (x *Exec) choose(name string, n int) int {
	s := x.st
	if n <= 1 {
		return 0
	}
	// a fresh variable makes re-execution deterministic
	k := s.names["$"+name]
	key := fmt.Sprintf("%s#%d", name, k)
	v, ok := s.kv["choice:"+key]
	if ok {
		s.names["$"+name]++
		return v.(int)
	}
	for i := n - 1; i >= 1; i-- {
		o := x.cloneState(s)
		o.kv["choice:"+key] = i
		o.inputs = append(o.inputs, Input{Name: key, V: uint64(i)})
		x.pushWork(o)
	}
	s.kv["choice:"+key] = 0
	s.inputs = append(s.inputs, Input{Name: key, V: 0})
	s.names["$"+name]++
	return 0
}

func (x *Exec) pushWork(s *State) {
	if forkStat {
		x.ForkAt[x.where()]++
	}
	s.forks++
	x.work = append(x.work, s)
}

// inEnvironment: the current path is inside code that talks to the operating system or the network.
func (x *Exec) inEnvironment() bool {
	if x.st == nil || len(x.st.threads) == 0 {
		return false
	}
	for _, f := range x.st.threads[x.st.cur].frames {
		switch p := fnPkg(f.fn); p {
		case "os", "syscall", "net", "internal/poll", "database/sql", "os/exec", "os/signal", "net/http", "io/fs", "plugin":
			return true
		default:
			for _, pre := range []string{"crypto/", "golang.org/x/sys", "internal/syscall", "github.com/nats-io", "github.com/nsqio", "github.com/streadway", "github.com/go-redis", "github.com/lib/pq", "github.com/tarantool"} {
				if strings.HasPrefix(p, pre) {
					return true
				}
			}
		}
	}
	return false
}

func (x *Exec) where() string {
	if x.st == nil || len(x.st.threads) == 0 {
		return "?"
	}
	th := x.st.threads[x.st.cur]
	var p []string
	for i := len(th.frames) - 1; i >= 0 && len(p) < whereDepth; i-- {
		f := th.frames[i]
		pos := token.NoPos
		if f.pc < len(f.blk.Instrs) {
			pos = f.blk.Instrs[f.pc].Pos()
		}
		ps := x.prog.Fset.Position(pos)
		fnm := ps.Filename
		if j := strings.LastIndex(fnm, "/"); j >= 0 {
			fnm = fnm[j+1:]
		}
		p = append(p, fmt.Sprintf("%s(%s:%d)", f.fn.Name(), fnm, ps.Line))
	}
	return strings.Join(p, "<-")
}

func (x *Exec) endPath(s *State, kind, msg string) {
	x.st = s
	if kind == "discard" {
		return
	}
	x.Paths++
	x.PathKinds[kind]++
	for _, n := range s.notes {
		x.NotesSeen[n]++
	}
	for _, c := range s.covers {
		x.Covers[c]++
	}
	switch kind {
	case "panic", "deadlock", "exit":
		x.candidate(kind, msg, s.pc, nil)
	case "unsupported", "bound":
		x.Unsup[msg]++
		if os.Getenv("VDEBUG") != "" {
			fmt.Println("UNSUPPORTED", msg)
		}
		// a path that is stuck in the environment is not run natively: no stand-in would meet it there
		if len(x.unsupIn) < 24 && !x.inEnvironment() {
			if m, ok := x.pathModel(s); ok {
				x.unsupIn = append(x.unsupIn, Candidate{Kind: kind, Msg: msg, Inputs: x.inputsOf(s, m), hadModel: true})
			}
		}
	case "ok":
		// keep a sample of witnesses, spread over the exploration
		x.rnd = x.rnd*6364136223846793005 + 1442695040888963407
		if len(x.Witnesses) < x.maxWit {
			if m, ok := x.pathModel(s); ok {
				x.Witnesses = append(x.Witnesses, x.witness(s, m))
			}
		} else if x.maxWit > 0 {
			if j := int(x.rnd>>33) % x.Paths; j < x.maxWit {
				if m, ok := x.pathModel(s); ok {
					x.Witnesses[j] = x.witness(s, m)
				}
			}
		}
	}
}

func (x *Exec) witness(s *State, m Model) Witness {
	// randomise unconstrained variables for better coverage
	mm := Model{}
	for k, v := range m {
		mm[k] = v
	}
	con := map[int32]bool{}
	for _, t := range s.pc {
		for _, v := range x.c.Vars(t) {
			con[v] = true
		}
	}
	for _, in := range s.inputs {
		if in.T == nil || in.T.op != OVar {
			continue
		}
		v := in.T.vars[0]
		if !con[v] && !isFP(in.T.w) {
			x.rnd = x.rnd*6364136223846793005 + 1442695040888963407
			mm[v] = (x.rnd >> 17) & maskW(in.T.w)
			if in.T.w == WBool {
				mm[v] &= 1
			}
		}
	}
	return Witness{Inputs: x.inputsOf(s, mm), Emits: x.emitsOf(s, mm), Kind: "ok"}
}

func (x *Exec) emitsOf(s *State, m Model) []string {
	var r []string
	for _, e := range s.emits {
		l := e.Tag
		for _, t := range e.Vals {
			l += fmt.Sprintf(" %x", x.c.Eval(t, m))
		}
		r = append(r, l)
	}
	return r
}

func (x *Exec) inputsOf(s *State, m Model) map[string]uint64 {
	r := map[string]uint64{}
	for _, in := range s.inputs {
		if in.T == nil {
			r[in.Name] = in.V
		} else {
			r[in.Name] = x.c.Eval(in.T, m)
		}
	}
	return r
}

func (x *Exec) pathModel(s *State) (Model, bool) {
	if s.modelOK {
		return s.model, true
	}
	r, m := x.sol.checkSet(s.pc)
	if r == Sat {
		s.model, s.modelOK = m, true
		return m, true
	}
	return nil, false
}

// candidate records a potential violation with a concrete input.
func (x *Exec) candidate(kind, msg string, pc []*Term, m Model) {
	key := kind + "|" + msg
	if kind == "panic" {
		key += "|" + x.st.panicWhere()
	}
	if x.candSeen[key] >= 4 {
		return
	}
	x.candSeen[key]++
	if m == nil {
		mm, ok := x.pathModel(x.st)
		if !ok {
			x.Unknowns++
			x.Unsup["no model for "+kind+": "+msg]++
			return
		}
		m = mm
	}
	x.Cands = append(x.Cands, Candidate{Kind: kind, Msg: msg, Where: x.where(), Inputs: x.inputsOf(x.st, m), hadModel: true})
}

func (s *State) panicWhere() string {
	for _, t := range s.threads {
		for _, p := range t.panics {
			return p.where
		}
	}
	return ""
}

// ---------- path condition

func (x *Exec) addPC(t *Term) {
	for _, q := range flatten(x.c, t, nil) {
		dup := false
		for _, o := range x.st.pc {
			if o == q {
				dup = true
				break
			}
		}
		if !dup {
			x.st.pc = append(x.st.pc, q)
		}
	}
}

func mergeModel(base, m Model) Model {
	r := make(Model, len(base)+len(m))
	for k, v := range base {
		r[k] = v
	}
	for k, v := range m {
		r[k] = v
	}
	return r
}

// entailed quickly: 1 true, 0 false, -1 unknown
func (x *Exec) known(t *Term) int {
	if t.IsConst() {
		return int(t.c)
	}
	n := x.c.Not(t)
	for _, q := range x.st.pc {
		if q == t {
			return 1
		}
		if q == n {
			return 0
		}
	}
	return -1
}

// decide returns the truth of cond on this path, forking when both are possible.
func (x *Exec) decide(cond *Term) bool {
	if k := x.known(cond); k >= 0 {
		return k == 1
	}
	s := x.st
	if s.isBase {
		panic(unsup("symbolic decision during package initialisation"))
	}
	n := x.c.Not(cond)
	if s.modelOK {
		v := x.c.Eval(cond, s.model) == 1
		other := cond
		if v {
			other = n
		}
		r, m := x.sol.Check(s.pc, other)
		if r == Unsat {
			return v
		}
		if r == Unknown {
			x.Unknowns++
			s.note("branch feasibility unknown")
			if os.Getenv("VUNK") != "" {
				fmt.Fprintln(os.Stderr, "UNK", x.c.Str(cond))
			}
		}
		o := x.cloneState(s)
		x.st = o
		x.addPC(other)
		if r == Sat {
			o.model = mergeModel(s.model, m)
		} else {
			o.modelOK = false
		}
		x.pushWork(o)
		x.st = s
		if v {
			x.addPC(cond)
		} else {
			x.addPC(n)
		}
		return v
	}
	r1, m1 := x.sol.Check(s.pc, cond)
	if r1 == Unsat {
		return false
	}
	r2, m2 := x.sol.Check(s.pc, n)
	if r2 == Unsat {
		return true
	}
	_ = m1
	_ = m2
	if r1 == Unknown || r2 == Unknown {
		x.Unknowns++
		s.note("branch feasibility unknown")
		if os.Getenv("VUNK") != "" {
			fmt.Fprintln(os.Stderr, "UNK", x.c.Str(cond))
		}
	}
	o := x.cloneState(s)
	x.st = o
	x.addPC(n)
	x.pushWork(o)
	x.st = s
	x.addPC(cond)
	return true
}

// concretise forces t to a single value on this path, forking over the alternatives.
func (x *Exec) concretise(t *Term) uint64 {
	if t.IsConst() {
		return t.c
	}
	s := x.st
	// already pinned by the path condition?
	for _, q := range s.pc {
		if q.op == OEq && q.args[0] == t && q.args[1].IsConst() {
			return q.args[1].c
		}
		if q.op == OEq && q.args[1] == t && q.args[0].IsConst() {
			return q.args[0].c
		}
	}
	s.concr++
	if s.concr > x.lim.MaxConcr {
		panic(killPath{"bound", "too many concretisations @ " + x.where()})
	}
	var v uint64
	if s.modelOK {
		v = x.c.Eval(t, s.model)
	} else {
		m, ok := x.pathModel(s)
		if !ok {
			panic(killPath{"bound", "no model to concretise"})
		}
		v = x.c.Eval(t, m)
	}
	if !x.decide(x.c.Eq(t, x.c.Const(t.w, v))) {
		// model disagreed (cannot normally happen)
		panic(killPath{"bound", "concretisation failed"})
	}
	return v
}

func (x *Exec) assume(cond *Term) {
	if k := x.known(cond); k == 1 {
		return
	} else if k == 0 {
		panic(killPath{"discard", ""})
	}
	s := x.st
	if s.modelOK && x.c.Eval(cond, s.model) == 1 {
		x.addPC(cond)
		return
	}
	r, m := x.sol.Check(s.pc, cond)
	switch r {
	case Unsat:
		panic(killPath{"discard", ""})
	case Sat:
		if s.modelOK {
			s.model = mergeModel(s.model, m)
		}
	default:
		s.modelOK = false
		x.Unknowns++
	}
	x.addPC(cond)
}

func (x *Exec) assert(cond *Term, msg string) {
	x.Asserts++
	if cond.IsTrue() {
		return
	}
	s := x.st
	if k := x.known(cond); k == 1 {
		return
	}
	n := x.c.Not(cond)
	x.AssertQ++
	if s.modelOK && !hasUninterp(x, n) && x.c.Eval(n, s.model) == 1 {
		x.candidate("assert", msg, s.pc, s.model)
	} else {
		r, m := x.sol.Check(s.pc, n)
		switch r {
		case Unsat:
			if k := x.known(cond); k < 0 {
				// keep as a lemma only if cheap
			}
			return
		case Sat:
			base := s.model
			if !s.modelOK {
				if mm, ok := x.pathModel(s); ok {
					base = mm
				} else {
					base = Model{}
				}
			}
			x.candidate("assert", msg, s.pc, mergeModel(base, m))
		default:
			x.Unknowns++
			x.Unsup["assert undecided: "+msg]++
			if mm, ok := x.pathModel(s); ok && len(x.unsupIn) < 24 {
				x.unsupIn = append(x.unsupIn, Candidate{Kind: "unknown", Msg: msg, Inputs: x.inputsOf(s, mm), hadModel: true})
			}
			return
		}
	}
	// continue on the side where it holds
	x.assume(cond)
}

func hasUninterp(x *Exec, t *Term) bool { return false }

// ---------- frames

func (x *Exec) pushFrame(th *Thread, fn *ssa.Function, args []Val, bind []Val, callTo ssa.Value) *Frame {
	if len(fn.Blocks) == 0 {
		panic(unsup("no body: " + fn.String()))
	}
	if len(th.frames) > 200 {
		panic(unsup("call depth"))
	}
	x.FuncsSeen[fn] = true
	in := fnInfo(fn)
	f := &Frame{fn: fn, info: in, blk: fn.Blocks[0], regs: make([]Val, in.n), callTo: callTo}
	for i, a := range args {
		f.regs[i] = a
	}
	for i, b := range bind {
		f.regs[len(fn.Params)+i] = b
	}
	th.frames = append(th.frames, f)
	return f
}

func (x *Exec) get(f *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return x.globalPtr(v)
	case *ssa.Function:
		return FuncV{fn: v}
	case *ssa.Builtin:
		return FuncV{blt: v}
	}
	r := f.regs[f.info.idx[v]]
	return r
}

func (x *Exec) set(f *Frame, v ssa.Value, r Val) {
	f.regs[f.info.idx[v]] = r
}

func (x *Exec) constVal(k *ssa.Const) Val {
	t := k.Type()
	if k.Value == nil {
		return x.zero(t)
	}
	if w, signed, ok := scalarW(t); ok {
		switch {
		case w == WBool:
			return x.c.Bool(constant.BoolVal(k.Value))
		case isFP(w):
			f, _ := constant.Float64Val(constant.ToFloat(k.Value))
			return x.c.fconst(w, f)
		}
		iv := constant.ToInt(k.Value)
		if signed {
			i, _ := constant.Int64Val(iv)
			return x.c.Const(w, uint64(i))
		}
		u, exact := constant.Uint64Val(iv)
		if !exact {
			i, _ := constant.Int64Val(iv)
			u = uint64(i)
		}
		return x.c.Const(w, u)
	}
	if isString(t) {
		return Str{s: constant.StringVal(k.Value)}
	}
	if types.IsInterface(t) {
		// constant of interface/type-param type should not occur
		panic(unsup("interface constant"))
	}
	panic(unsup(fmt.Sprintf("const of type %v", t)))
}

func (x *Exec) globalPtr(g *ssa.Global) Val {
	if id, ok := x.globs[g]; ok {
		if x.inited[g.Pkg] == 0 {
			x.initPkg(g.Pkg)
		}
		return Ptr{id, 0}
	}
	save := x.st
	x.st = x.bst
	id := x.newObj(g.Type().(*types.Pointer).Elem())
	x.st = save
	x.globs[g] = id
	if x.inited[g.Pkg] == 0 {
		x.initPkg(g.Pkg)
	}
	return Ptr{id, 0}
}

// initPkg runs the package initialiser concretely in the shared base heap.
func (x *Exec) initPkg(p *ssa.Package) {
	x.inited[p] = 1
	if p.Pkg.Path() == x.rtPath {
		x.inited[p] = 2
		return
	}
	fn := p.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		x.inited[p] = 2
		return
	}
	if noInit[p.Pkg.Path()] {
		// every global is opaque
		x.inited[p] = 2
		x.poisonPkg(p, "package "+p.Pkg.Path()+" not initialised")
		return
	}
	save := x.st
	saveThreads, saveCur, saveSteps := x.bst.threads, x.bst.cur, x.bst.steps
	x.st = x.bst
	th := &Thread{id: 0, name: "init"}
	x.bst.threads = []*Thread{th}
	x.bst.cur = 0
	x.bst.steps = 0
	x.pushFrame(th, fn, nil, nil, nil)
	for len(th.frames) > 0 {
		x.bst.steps++
		if x.bst.steps > 3000000 {
			break
		}
		x.initStep(th)
	}
	x.bst.threads, x.bst.cur, x.bst.steps = saveThreads, saveCur, saveSteps
	x.st = save
	x.inited[p] = 2
}

func (x *Exec) initStep(th *Thread) {
	defer func() {
		if r := recover(); r != nil {
			msg := ""
			switch v := r.(type) {
			case unsupported:
				msg = v.msg
			case killPath:
				msg = v.kind + v.msg
			default:
				if x.debug {
					panic(r)
				}
				msg = fmt.Sprint(r)
			}
			// unwind to the initialiser and poison the result of the failing instruction
			th.panics = nil
			for len(th.frames) > 1 {
				th.frames = th.frames[:len(th.frames)-1]
			}
			if len(th.frames) == 0 {
				return
			}
			f := th.frames[0]
			f.mode = 0
			f.defers = nil
			ins := f.blk.Instrs[f.pc]
			if v, ok := ins.(ssa.Value); ok {
				x.set(f, v, Poison{"init: " + msg})
			}
			if _, ok := ins.(*ssa.If); ok {
				// cannot follow: stop initialising
				th.frames = nil
				return
			}
			f.pc++
			if f.pc >= len(f.blk.Instrs) {
				th.frames = nil
			}
		}
	}()
	x.step(x.bst, th)
}

// sentinels are error values of packages that are not initialised.
var sentinels = map[string]string{
	"net.ErrClosed":          "use of closed network connection",
	"os.ErrDeadlineExceeded": "i/o timeout",
	"os.ErrNotExist":         "file does not exist",
	"os.ErrExist":            "file already exists",
	"os.ErrPermission":       "permission denied",
	"os.ErrClosed":           "file already closed",
	"os.ErrInvalid":          "invalid argument",
}

func (x *Exec) poisonPkg(p *ssa.Package, why string) {
	save := x.st
	x.st = x.bst
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			id, ok := x.globs[g]
			if !ok {
				id = x.newObj(g.Type().(*types.Pointer).Elem())
				x.globs[g] = id
			}
			o := x.base[-id-1]
			for i := range o.cells {
				if _, isT := o.cells[i].(*Term); !isT {
					o.cells[i] = Poison{why}
				}
			}
			if txt, ok := sentinels[p.Pkg.Path()+"."+g.Name()]; ok {
				o.cells[0] = x.errorNew(cstr(txt))
			}
		}
	}
	x.st = save
}

// ---------- panics

func (x *Exec) goPanic(v Val, msg string) {
	th := x.st.threads[x.st.cur]
	if x.st.isBase {
		panic(unsup("panic during initialisation: " + msg))
	}
	th.panics = append(th.panics, &PanicRec{val: v, msg: msg, where: x.where()})
	x.unwind(th)
}

func (x *Exec) rtPanic(msg string) {
	x.goPanic(Iface{t: rtErrType, v: cstr(msg)}, "runtime error: "+msg)
}

var rtErrType types.Type = types.NewNamed(types.NewTypeName(token.NoPos, nil, "runtime.Error", nil), types.Typ[types.String], nil)

func (x *Exec) unwind(th *Thread) {
	for {
		if len(th.frames) == 0 {
			p := th.panics[len(th.panics)-1]
			panic(killPath{"panic", p.msg + " @ " + p.where})
		}
		f := th.frames[len(th.frames)-1]
		f.mode = 2
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			x.runDeferred(th, d)
			return
		}
		th.frames = th.frames[:len(th.frames)-1]
		if f.isDefer {
			// a deferred call itself panicked: the new panic supersedes; continue with the parent
		}
	}
}

func (x *Exec) runDeferred(th *Thread, d deferred) {
	n := len(th.frames)
	parent := th.frames[n-1]
	var res Val
	pushed := x.invokeFn(th, d.fn, d.args, nil, &res, d.site)
	if pushed {
		th.frames[len(th.frames)-1].isDefer = true
		return
	}
	// intrinsic finished synchronously
	if parent.mode == 2 {
		x.unwind(th)
	}
}

// afterReturn is called when frame f (already popped) returned v.
func (x *Exec) afterReturn(th *Thread, f *Frame, v Val) {
	if f.onRet != nil {
		v = f.onRet(x, v)
	}
	if len(th.frames) == 0 {
		th.done = true
		th.result = v
		return
	}
	if f.redo != "" {
		// the instruction that caused the call is executed again, with the result at hand
		x.st.kv[f.redo] = v
		return
	}
	p := th.frames[len(th.frames)-1]
	if f.isDefer {
		switch p.mode {
		case 2:
			if len(th.panics) > 0 && th.panics[len(th.panics)-1].recovered {
				th.panics = th.panics[:len(th.panics)-1]
				p.mode = 3
				x.finishRecovered(th, p)
				return
			}
			x.unwind(th)
		case 3:
			x.finishRecovered(th, p)
		}
		return
	}
	if f.callTo != nil {
		x.set(p, f.callTo, v)
	}
	p.pc++
}

func (x *Exec) finishRecovered(th *Thread, p *Frame) {
	for len(p.defers) > 0 {
		d := p.defers[len(p.defers)-1]
		p.defers = p.defers[:len(p.defers)-1]
		n := len(th.frames)
		x.runDeferred(th, d)
		if len(th.frames) > n || th.frames[n-1].mode == 2 {
			return
		}
	}
	p.mode = 0
	if p.fn.Recover != nil {
		p.prev = nil
		p.blk = p.fn.Recover
		p.pc = 0
		return
	}
	th.frames = th.frames[:len(th.frames)-1]
	var v Val
	rs := p.fn.Signature.Results()
	switch rs.Len() {
	case 0:
	case 1:
		v = x.zero(rs.At(0).Type())
	default:
		v = x.zero(rs)
	}
	x.afterReturn(th, p, v)
}

// ---------- instruction interpreter

func (x *Exec) jump(f *Frame, to *ssa.BasicBlock) {
	from := f.blk
	// evaluate phis in parallel
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var vals []Val
	n := 0
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, x.get(f, ph.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		x.set(f, to.Instrs[i].(*ssa.Phi), vals[i])
	}
	f.prev = from
	f.blk = to
	f.pc = n
}

func (x *Exec) step(s *State, th *Thread) {
	f := th.frames[len(th.frames)-1]
	ins := f.blk.Instrs[f.pc]
	if x.debug {
		fmt.Printf("[%d] %s: %s\n", s.id, f.fn.Name(), ins)
	}
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		id := x.newObj(i.Type().(*types.Pointer).Elem())
		x.set(f, i, Ptr{id, 0})
	case *ssa.BinOp:
		v, ok := x.binop(i.Op, x.get(f, i.X), x.get(f, i.Y), i.X.Type(), i.Y.Type())
		if !ok {
			return // panicked
		}
		x.set(f, i, v)
	case *ssa.UnOp:
		v, ok := x.unop(f, i)
		if !ok {
			return
		}
		x.set(f, i, v)
	case *ssa.ChangeInterface:
		x.set(f, i, x.get(f, i.X))
	case *ssa.ChangeType:
		x.set(f, i, x.get(f, i.X))
	case *ssa.Convert:
		x.set(f, i, x.convert(x.get(f, i.X), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		x.set(f, i, x.convert(x.get(f, i.X), i.X.Type(), i.Type()))
	case *ssa.MakeInterface:
		x.set(f, i, Iface{t: i.X.Type(), v: x.get(f, i.X)})
	case *ssa.Extract:
		t := x.get(f, i.Tuple)
		if p, ok := t.(Poison); ok {
			x.set(f, i, p)
		} else {
			x.set(f, i, t.(Agg)[i.Index])
		}
	case *ssa.Field:
		a := x.get(f, i.X)
		if p, ok := a.(Poison); ok {
			x.set(f, i, p)
			break
		}
		st := i.X.Type().Underlying().(*types.Struct)
		off := fieldOff(st, i.Field)
		ft := st.Field(i.Field).Type()
		if isAgg(ft) {
			n := slots(ft)
			x.set(f, i, append(Agg(nil), a.(Agg)[off:off+n]...))
		} else {
			x.set(f, i, a.(Agg)[off])
		}
	case *ssa.FieldAddr:
		p := x.get(f, i.X)
		st := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		off := fieldOff(st, i.Field)
		switch p := p.(type) {
		case Ptr:
			if p.obj == 0 {
				x.rtPanic("invalid memory address or nil pointer dereference")
				return
			}
			x.set(f, i, Ptr{p.obj, p.off + off})
		case SymPtr:
			p.sub += off
			x.set(f, i, p)
		case Poison:
			if !s.isBase {
				panic(unsup("field of unsupported value: " + p.why))
			}
			x.set(f, i, p)
		default:
			panic(unsup(fmt.Sprintf("FieldAddr of %T", p)))
		}
	case *ssa.Index:
		v, ok := x.index(f, i)
		if !ok {
			return
		}
		x.set(f, i, v)
	case *ssa.IndexAddr:
		v, ok := x.indexAddr(f, i)
		if !ok {
			return
		}
		x.set(f, i, v)
	case *ssa.Lookup:
		v, ok := x.lookup(f, i)
		if !ok {
			return
		}
		x.set(f, i, v)
	case *ssa.Slice:
		v, ok := x.slice(f, i)
		if !ok {
			return
		}
		x.set(f, i, v)
	case *ssa.SliceToArrayPointer:
		sl := x.get(f, i.X).(Slice)
		n := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if x.decide(x.c.Slt(sl.len, x.Int(n))) {
			x.rtPanic("cannot convert slice to array pointer: length")
			return
		}
		x.set(f, i, Ptr{sl.obj, sl.off})
	case *ssa.MakeSlice:
		v, ok := x.makeSlice(f, i)
		if !ok {
			return
		}
		x.set(f, i, v)
	case *ssa.MakeMap:
		id := x.alloc(&Object{m: &MapObj{}})
		x.set(f, i, MapV{id})
	case *ssa.MakeChan:
		n := x.concretise(x.get(f, i.Size).(*Term))
		id := x.alloc(&Object{ch: &ChanObj{cap: int(n)}})
		x.set(f, i, ChanV{id})
	case *ssa.MakeClosure:
		var b []Val
		for _, v := range i.Bindings {
			b = append(b, x.get(f, v))
		}
		x.set(f, i, FuncV{fn: i.Fn.(*ssa.Function), bind: b})
	case *ssa.MapUpdate:
		m := x.get(f, i.Map)
		mv, ok := m.(MapV)
		if !ok {
			panic(unsup("map update on unsupported value"))
		}
		if mv.obj == 0 {
			x.rtPanic("assignment to entry in nil map")
			return
		}
		x.mapSet(mv, x.get(f, i.Key), x.get(f, i.Value))
	case *ssa.Range:
		v := x.get(f, i.X)
		switch v := v.(type) {
		case MapV:
			it := &IterObj{}
			if v.obj != 0 {
				x.access(v.obj, 0, 1, false)
				it.ents = append(it.ents, x.obj(v.obj).m.ents...)
				if x.params["permute_maps"] != 0 && len(it.ents) > 1 && len(it.ents) <= 4 && !s.isBase {
					fact := 1
					for k := 2; k <= len(it.ents); k++ {
						fact *= k
					}
					it.ents = permute(it.ents, x.choose("maporder", fact))
				}
			}
			x.set(f, i, Ptr{x.alloc(&Object{it: it}), 0})
		case Str:
			x.set(f, i, Ptr{x.alloc(&Object{it: &IterObj{isS: true, str: v}}), 0})
		default:
			panic(unsup(fmt.Sprintf("range over %T", v)))
		}
	case *ssa.Next:
		x.set(f, i, x.next(f, i))
	case *ssa.Store:
		p := x.get(f, i.Addr)
		if pp, ok := p.(Ptr); ok && pp.obj == 0 {
			x.rtPanic("invalid memory address or nil pointer dereference")
			return
		}
		x.store(p, x.get(f, i.Val), i.Val.Type())
	case *ssa.TypeAssert:
		v, ok := x.typeAssert(f, i)
		if !ok {
			return
		}
		x.set(f, i, v)
	case *ssa.Jump:
		x.jump(f, f.blk.Succs[0])
		return
	case *ssa.If:
		cv := x.get(f, i.Cond)
		if p, ok := cv.(Poison); ok {
			panic(unsup("branch on unsupported value: " + p.why))
		}
		cond := cv.(*Term)
		if !cond.IsConst() && x.known(cond) < 0 && x.tryMerge(th, f, cond) {
			return
		}
		if x.decide(cond) {
			x.jump(f, f.blk.Succs[0])
		} else {
			x.jump(f, f.blk.Succs[1])
		}
		return
	case *ssa.Return:
		var v Val
		switch len(i.Results) {
		case 0:
		case 1:
			v = x.get(f, i.Results[0])
		default:
			a := make(Agg, len(i.Results))
			for k, r := range i.Results {
				a[k] = x.get(f, r)
			}
			v = a
		}
		th.frames = th.frames[:len(th.frames)-1]
		x.afterReturn(th, f, v)
		return
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			x.runDeferred(th, d)
			return
		}
	case *ssa.Panic:
		v := x.get(f, i.X)
		x.goPanic(v, "panic: "+x.describe(v))
		return
	case *ssa.Defer:
		fn, args := x.prepCall(f, &i.Call)
		if fn.fn == nil && fn.blt == nil {
			return // panicked
		}
		f.defers = append(f.defers, deferred{fn: fn, args: args, site: i})
	case *ssa.Go:
		fn, args := x.prepCall(f, &i.Call)
		if fn.fn == nil && fn.blt == nil {
			return
		}
		nt := &Thread{id: len(s.threads), name: fmt.Sprintf("g%d", len(s.threads))}
		s.threads = append(s.threads, nt)
		x.goEdge(th, nt)
		if fn.blt != nil || x.isIntrinsic(fn.fn) {
			nt.done = true
			var res Val
			x.invokeFn(th, fn, args, nil, &res, i)
			break
		}
		fn2 := fn.fn
		if r, ok := x.redirects[fn2.String()]; ok {
			fn2 = r
			args = args[len(args)-len(r.Params):]
		}
		x.pushFrame(nt, fn2, args, fn.bind, nil)
	case *ssa.Send:
		if !x.chanSend(th, x.get(f, i.Chan).(ChanV), x.get(f, i.X)) {
			return
		}
	case *ssa.Select:
		v, ok := x.selectStmt(th, f, i)
		if !ok {
			return
		}
		x.set(f, i, v)
	case *ssa.Call:
		x.call(th, f, i)
		return
	default:
		panic(unsup(fmt.Sprintf("instruction %T", ins)))
	}
	f.pc++
}

func permute(e []mapEnt, k int) []mapEnt {
	src := append([]mapEnt(nil), e...)
	var out []mapEnt
	for n := len(src); n > 0; n-- {
		i := k % n
		k /= n
		out = append(out, src[i])
		src = append(src[:i], src[i+1:]...)
	}
	return out
}

func (x *Exec) describe(v Val) string {
	switch v := v.(type) {
	case Str:
		if v.concrete() {
			return v.s
		}
		return "<symbolic string>"
	case Iface:
		if v.t == nil {
			return "nil"
		}
		if s, ok := v.v.(Str); ok {
			return x.describe(s)
		}
		return v.t.String()
	case *Term:
		return x.c.Str(v)
	}
	return fmt.Sprintf("%T", v)
}

// ---------- calls

func (x *Exec) prepCall(f *Frame, cc *ssa.CallCommon) (FuncV, []Val) {
	var args []Val
	if cc.IsInvoke() {
		rv := x.get(f, cc.Value)
		ifc, ok := rv.(Iface)
		if !ok {
			if p, isP := rv.(Poison); isP {
				panic(unsup("method call on unsupported value: " + p.why))
			}
			panic(unsup(fmt.Sprintf("invoke on %T", rv)))
		}
		if ifc.t == nil {
			x.rtPanic("invalid memory address or nil pointer dereference")
			return FuncV{}, nil
		}
		m := x.lookupMethod(ifc.t, cc.Method)
		if m == nil {
			panic(unsup(fmt.Sprintf("no method %s on %v", cc.Method.Name(), ifc.t)))
		}
		args = append(args, ifc.v)
		for _, a := range cc.Args {
			args = append(args, x.get(f, a))
		}
		return FuncV{fn: m}, args
	}
	fv := x.get(f, cc.Value)
	for _, a := range cc.Args {
		args = append(args, x.get(f, a))
	}
	switch fv := fv.(type) {
	case FuncV:
		if fv.fn == nil && fv.blt == nil {
			x.rtPanic("invalid memory address or nil pointer dereference (nil func)")
			return FuncV{}, nil
		}
		return fv, args
	case Poison:
		panic(unsup("call of unsupported value: " + fv.why))
	}
	panic(unsup(fmt.Sprintf("call of %T", fv)))
}

var methMu sync.Mutex

func (x *Exec) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	if t == rtErrType {
		return nil
	}
	methMu.Lock()
	defer methMu.Unlock()
	sel := x.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return x.prog.MethodValue(sel)
}

// methodByName finds a method by name on any type.
func (x *Exec) methodByName(t types.Type, name string) *ssa.Function {
	if t == nil || t == rtErrType {
		return nil
	}
	methMu.Lock()
	defer methMu.Unlock()
	sel := x.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return x.prog.MethodValue(sel)
}

func (x *Exec) call(th *Thread, f *Frame, i *ssa.Call) {
	fn, args := x.prepCall(f, &i.Call)
	if fn.fn == nil && fn.blt == nil {
		return
	}
	if x.st.isBase && fn.fn != nil && fn.fn.Name() == "init" && fn.fn.Signature.Recv() == nil && fn.fn.Pkg != nil && fn.fn.Pkg != f.fn.Pkg {
		f.pc++ // other packages initialise lazily
		return
	}
	var res Val
	depth := len(th.frames)
	if x.invokeFn(th, fn, args, i, &res, i) {
		return
	}
	if th.parked || th.done || len(th.frames) != depth || f.mode == 2 {
		return
	}
	if x.restart {
		x.restart = false
		return
	}
	x.set(f, i, res)
	f.pc++
}

// invokeFn pushes a frame for fn (true) or runs an intrinsic (false, result in res).
func (x *Exec) invokeFn(th *Thread, fn FuncV, args []Val, callTo ssa.Value, res *Val, site ssa.Instruction) bool {
	if fn.blt != nil {
		*res = x.builtin(th, fn.blt, args, site)
		return false
	}
	g := fn.fn
	if r, ok := x.redirects[g.String()]; ok && !x.inRedirect(th, r) {
		g = r
		x.FuncsSeen[g] = true
		// a stand-in may leave out the receiver
		x.pushFrame(th, g, args[len(args)-len(g.Params):], nil, callTo)
		return true
	}
	if h := x.intrinsic(g); h != nil {
		if x.st.race != nil && len(args) > 0 {
			if p := fnPkg(g); p == "sync" || p == "sync/atomic" {
				if q, ok := args[0].(Ptr); ok {
					x.syncEdge(th, fmt.Sprintf("%d.%d", q.obj, q.off))
				}
			}
		}
		v, ok := h(x, &CallCtx{th: th, fn: g, site: site, callTo: callTo}, args)
		if ok {
			*res = v
			return false
		}
		// handler pushed a frame or wants the body executed
		if v == pushedMarker {
			return true
		}
	}
	if len(g.Blocks) == 0 {
		panic(unsup("external function " + g.String()))
	}
	x.pushFrame(th, g, args, fn.bind, callTo)
	return true
}

func (x *Exec) inRedirect(th *Thread, r *ssa.Function) bool {
	for _, f := range th.frames {
		if f.fn == r {
			return true
		}
	}
	return false
}

var pushedMarker = &struct{ n int }{1}

func sortedKeys[T any](m map[string]T) []string {
	var k []string
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return k
}

var whereDepth = func() int {
	if os.Getenv("VDEBUG") != "" {
		return 12
	}
	return 4
}()
