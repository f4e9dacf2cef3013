package main

// SMT back end: one z3 process per context, sliced queries, model extraction,
// and a sound linear-real relaxation for floating-point constraints.

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	defs   map[int]bool
	ndefs  int
	lineCh chan string
}

type Solver struct {
	c       *TermCtx
	bin     string
	p       *proc
	cache   map[string]cacheEnt
	Queries int
	ByRes   [3]int
	Time    time.Duration
	MaxTime time.Duration
	Errors  int
	FPq     int
	CacheH  int
	timeout time.Duration
}

type cacheEnt struct {
	r Res
	m Model
}

func NewSolver(c *TermCtx, timeout time.Duration) *Solver {
	return &Solver{c: c, bin: "z3-new", cache: map[string]cacheEnt{}, timeout: timeout}
}

func (s *Solver) Close() {
	if s.p != nil {
		s.p.in.Close()
		s.p.cmd.Process.Kill()
		s.p.cmd.Wait()
		s.p = nil
	}
}

func (s *Solver) start(bin string, args ...string) (*proc, error) {
	cmd := exec.Command(bin, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	p := &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16), defs: map[int]bool{}, lineCh: make(chan string, 64)}
	go func() {
		for {
			l, err := p.out.ReadString('\n')
			if l != "" {
				p.lineCh <- strings.TrimRight(l, "\n")
			}
			if err != nil {
				close(p.lineCh)
				return
			}
		}
	}()
	return p, nil
}

func (s *Solver) ensure() error {
	if s.p != nil && s.p.ndefs > 60000 {
		s.Close()
	}
	if s.p != nil {
		return nil
	}
	p, err := s.start(s.bin, "-in", "-smt2")
	if err != nil {
		return err
	}
	s.p = p
	ms := int(s.timeout / time.Millisecond)
	io.WriteString(p.in, fmt.Sprintf("(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-option :produce-models true)\n", ms))
	return nil
}

// define emits definitions for t and returns its reference string.
func (s *Solver) define(sb *strings.Builder, t *Term) string {
	if t.op == OConst {
		return constStr(t)
	}
	if t.op == OVar {
		if !s.p.defs[t.id] {
			s.p.defs[t.id] = true
			s.p.ndefs++
			fmt.Fprintf(sb, "(declare-const |%s| %s)\n", t.name, sortStr(t.w))
		}
		return "|" + t.name + "|"
	}
	nm := "t" + strconv.Itoa(t.id)
	if s.p.defs[t.id] {
		return nm
	}
	// iterative post-order to avoid deep recursion
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op == OConst || s.p.defs[a.id] {
				continue
			}
			if a.op == OVar {
				s.define(sb, a)
				continue
			}
			st = append(st, fr{a, 0})
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if s.p.defs[x.id] {
			continue
		}
		s.p.defs[x.id] = true
		s.p.ndefs++
		fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", x.id, sortStr(x.w), s.c.node(x, func(a *Term) string {
			if a.op == OConst {
				return constStr(a)
			}
			if a.op == OVar {
				return "|" + a.name + "|"
			}
			return "t" + strconv.Itoa(a.id)
		}))
	}
	return nm
}

func (s *Solver) readLine(d time.Duration) (string, bool) {
	select {
	case l, ok := <-s.p.lineCh:
		return l, ok
	case <-time.After(d):
		return "", false
	}
}

// rawCheck asks the solver about the conjunction of cs (no FP treatment).
func (s *Solver) rawCheck(cs []*Term, wantModel bool) (Res, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxTime {
			s.MaxTime = d
		}
	}()
	if err := s.ensure(); err != nil {
		s.Errors++
		return Unknown, nil
	}
	var sb strings.Builder
	var names []string
	for _, t := range cs {
		names = append(names, s.define(&sb, t))
	}
	sb.WriteString("(push 1)\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "(assert %s)\n", n)
	}
	sb.WriteString("(check-sat)\n")
	s.Queries++
	if _, err := io.WriteString(s.p.in, sb.String()); err != nil {
		s.Errors++
		s.Close()
		return Unknown, nil
	}
	l, ok := s.readLine(s.timeout + 10*time.Second)
	if !ok {
		s.Errors++
		s.Close()
		return Unknown, nil
	}
	var r Res
	switch l {
	case "sat":
		r = Sat
	case "unsat":
		r = Unsat
	default:
		r = Unknown
		if strings.Contains(l, "error") {
			s.Errors++
			fmt.Println("SOLVER ERROR:", l)
			s.Close()
			return Unknown, nil
		}
	}
	var m Model
	if r == Sat && wantModel {
		var vs []int32
		for _, t := range cs {
			vs = mergeVars(vs, s.c.Vars(t))
		}
		m = Model{}
		if len(vs) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vs {
				q.WriteString(" |" + s.c.vars[v].name + "|")
			}
			q.WriteString("))\n(echo \"END\")\n")
			io.WriteString(s.p.in, q.String())
			var txt strings.Builder
			for {
				l, ok := s.readLine(30 * time.Second)
				if !ok {
					s.Errors++
					s.Close()
					return Unknown, nil
				}
				if strings.Trim(l, "\"") == "END" {
					break
				}
				txt.WriteString(l)
				txt.WriteByte(' ')
			}
			parseModel(txt.String(), s.c, m)
		}
	}
	io.WriteString(s.p.in, "(pop 1)\n")
	return r, m
}

func parseModel(txt string, c *TermCtx, m Model) {
	// ((|name| #xff) (|n2| true) (|f| (fp #b0 #b... #x...)))
	i := 0
	for i < len(txt) {
		j := strings.IndexByte(txt[i:], '|')
		var name string
		if j < 0 {
			// names without bars (z3 strips unneeded bars)
			k := strings.IndexByte(txt[i:], '(')
			if k < 0 {
				return
			}
		}
		// generic s-expression scan
		if txt[i] != '(' {
			i++
			continue
		}
		i++
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '(') {
			i++
		}
		if i >= len(txt) {
			return
		}
		if txt[i] == '|' {
			e := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+e]
			i += e + 2
		} else {
			e := strings.IndexAny(txt[i:], " )")
			name = txt[i : i+e]
			i += e
		}
		for i < len(txt) && txt[i] == ' ' {
			i++
		}
		st := i
		dep := 0
		for i < len(txt) {
			if txt[i] == '(' {
				dep++
			} else if txt[i] == ')' {
				if dep == 0 {
					break
				}
				dep--
			}
			i++
		}
		val := strings.TrimSpace(txt[st:i])
		i++
		t, ok := c.varset[name]
		if !ok {
			continue
		}
		m[t.vars[0]] = parseVal(val, t.w)
	}
}

func parseVal(v string, w int) uint64 {
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "#x"):
		x, _ := strconv.ParseUint(v[2:], 16, 64)
		return x
	case strings.HasPrefix(v, "#b"):
		x, _ := strconv.ParseUint(v[2:], 2, 64)
		return x
	case strings.HasPrefix(v, "(fp "):
		f := strings.Fields(strings.Trim(v, "()"))
		if len(f) == 4 {
			var bitsS string
			for _, p := range f[1:] {
				if strings.HasPrefix(p, "#b") {
					bitsS += p[2:]
				} else if strings.HasPrefix(p, "#x") {
					for _, ch := range p[2:] {
						n, _ := strconv.ParseUint(string(ch), 16, 8)
						bitsS += fmt.Sprintf("%04b", n)
					}
				}
			}
			x, _ := strconv.ParseUint(bitsS, 2, 64)
			return x
		}
	case strings.HasPrefix(v, "(_ +zero"):
		return 0
	case strings.HasPrefix(v, "(_ -zero"):
		if w == WF32 {
			return 1 << 31
		}
		return 1 << 63
	case strings.HasPrefix(v, "(_ +oo"):
		return fbits(w, math.Inf(1))
	case strings.HasPrefix(v, "(_ -oo"):
		return fbits(w, math.Inf(-1))
	case strings.HasPrefix(v, "(_ NaN"):
		return fbits(w, math.NaN())
	}
	return 0
}

func flatten(c *TermCtx, t *Term, out []*Term) []*Term {
	if t.op == OBAnd {
		out = flatten(c, t.args[0], out)
		return flatten(c, t.args[1], out)
	}
	if t.IsTrue() {
		return out
	}
	return append(out, t)
}

// sliceFor keeps the constraints of pc connected to conds through shared variables.
func (s *Solver) sliceFor(pc []*Term, conds []*Term) []*Term {
	c := s.c
	in := make([]bool, len(pc))
	reach := map[int32]bool{}
	var vs []int32
	for _, t := range conds {
		vs = append(vs, c.Vars(t)...)
	}
	for _, v := range vs {
		reach[v] = true
	}
	for changed := true; changed; {
		changed = false
		for i, t := range pc {
			if in[i] {
				continue
			}
			hit := false
			for _, v := range c.Vars(t) {
				if reach[v] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				changed = true
				for _, v := range c.Vars(t) {
					reach[v] = true
				}
			}
		}
	}
	var out []*Term
	for i, t := range pc {
		if in[i] {
			out = append(out, t)
		}
	}
	return append(out, conds...)
}

// Check decides pc /\ cond, where pc is assumed satisfiable on its own.
func (s *Solver) Check(pc []*Term, cond *Term) (Res, Model) {
	conds := flatten(s.c, cond, nil)
	for _, t := range conds {
		if t.IsFalse() {
			return Unsat, nil
		}
	}
	if len(conds) == 0 {
		return Sat, Model{}
	}
	cs := s.sliceFor(pc, conds)
	return s.checkSet(cs)
}

func (s *Solver) checkSet(cs []*Term) (Res, Model) {
	ids := make([]int, 0, len(cs))
	seen := map[int]bool{}
	set := cs[:0:0]
	for _, t := range cs {
		if t.IsFalse() {
			return Unsat, nil
		}
		if seen[s.c.Not(t).id] {
			return Unsat, nil
		}
		if !seen[t.id] {
			seen[t.id] = true
			ids = append(ids, t.id)
			set = append(set, t)
		}
	}
	sort.Ints(ids)
	key := fmt.Sprint(ids)
	if e, ok := s.cache[key]; ok {
		s.CacheH++
		return e.r, e.m
	}
	fp := false
	for _, t := range set {
		if t.hasFP {
			fp = true
		}
	}
	var r Res
	var m Model
	if fp {
		r, m = s.checkFP(set)
	} else {
		r, m = s.rawCheck(set, true)
		if r == Unknown {
			r, m = s.retry(set)
		}
	}
	s.ByRes[r]++
	s.cache[key] = cacheEnt{r, m}
	return r, m
}

// retry with the other z3 release after an unknown.
func (s *Solver) retry(set []*Term) (Res, Model) {
	old := s.bin
	s.Close()
	s.bin = "z3"
	r, m := s.rawCheck(set, true)
	s.Close()
	s.bin = old
	return r, m
}

// ---------- floating-point relaxation

type relax struct {
	s     *Solver
	sb    strings.Builder
	ints  map[int]string // BV term id -> Int var
	intT  []*Term
	bools map[int]string
	reals map[int]string
	fvars []*Term
	ok    bool
	n     int
}

func ratStr(f float64) string {
	r := new(big.Rat)
	r.SetFloat64(f)
	return ratS(r)
}
func ratS(r *big.Rat) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	str := "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	if neg {
		return "(- " + str + ")"
	}
	return str
}

func (x *relax) fresh(p string) string {
	x.n++
	return fmt.Sprintf("%s%d", p, x.n)
}

// intOf translates a BV term into an Int expression; opaque terms become
// range-constrained Int variables (an over-approximation).
func (x *relax) intOf(t *Term) string {
	if t.op == OConst {
		return strconv.FormatUint(t.c, 10)
	}
	if v, ok := x.ints[t.id]; ok {
		return v
	}
	if t.op == OConcat && t.args[0].IsConst() && t.args[0].c == 0 {
		rest := x.s.c.Concat(t.args[1:]...)
		v := x.intOf(rest)
		x.ints[t.id] = v
		return v
	}
	if t.op == OLin && x.s.c.linNoWrapU(t) {
		e := "(+ " + strconv.FormatUint(t.c, 10)
		for i, a := range t.args {
			e += fmt.Sprintf(" (* %d %s)", t.coefs[i], x.intOf(a))
		}
		e += ")"
		x.ints[t.id] = e
		return e
	}
	if t.op == OLin {
		// exact when some sign choice keeps it within range; encode modulo via fresh k
		v := x.fresh("li")
		k := x.fresh("lk")
		fmt.Fprintf(&x.sb, "(declare-const %s Int)\n(declare-const %s Int)\n", v, k)
		e := "(+ " + strconv.FormatUint(t.c, 10)
		m := new(big.Int).Lsh(big.NewInt(1), uint(t.w))
		for i, a := range t.args {
			cf := new(big.Int).SetUint64(t.coefs[i])
			if cf.Cmp(new(big.Int).Rsh(m, 1)) >= 0 {
				cf.Sub(cf, m)
				e += fmt.Sprintf(" (* (- %s) %s)", new(big.Int).Neg(cf).String(), x.intOf(a))
			} else {
				e += fmt.Sprintf(" (* %s %s)", cf.String(), x.intOf(a))
			}
		}
		e += ")"
		fmt.Fprintf(&x.sb, "(assert (= %s (+ %s (* %s %s))))\n(assert (and (<= %d %s) (<= %s %d)))\n", v, e, k, m.String(), t.ulo, v, v, t.uhi)
		x.ints[t.id] = v
		return v
	}
	if t.op == OIte {
		e := fmt.Sprintf("(ite %s %s %s)", x.boolOf(t.args[0]), x.intOf(t.args[1]), x.intOf(t.args[2]))
		x.ints[t.id] = e
		return e
	}
	v := x.fresh("i")
	fmt.Fprintf(&x.sb, "(declare-const %s Int)\n(assert (and (<= %d %s) (<= %s %d)))\n", v, t.ulo, v, v, t.uhi)
	x.ints[t.id] = v
	if t.op == OF2U || t.op == OF2S {
		r := x.realOf(t.args[0])
		lim := new(big.Int).Lsh(big.NewInt(1), uint(t.w)).String()
		if t.op == OF2U {
			fmt.Fprintf(&x.sb, "(assert (=> (and (>= %s 0.0) (< %s %s.0)) (and (<= (to_real %s) %s) (< %s (+ (to_real %s) 1.0)))))\n", r, r, lim, v, r, r, v)
			fmt.Fprintf(&x.sb, "(assert (=> (and (> %s (- 1.0)) (< %s 0.0)) (= %s 0)))\n", r, r, v)
		} else {
			half := new(big.Int).Lsh(big.NewInt(1), uint(t.w-1)).String()
			fmt.Fprintf(&x.sb, "(assert (=> (and (>= %s 0.0) (< %s %s.0)) (and (<= (to_real %s) %s) (< %s (+ (to_real %s) 1.0)))))\n", r, r, half, v, r, r, v)
			// negative values wrap into the unsigned view
			fmt.Fprintf(&x.sb, "(assert (=> (and (> %s (- 1.0)) (< %s 0.0)) (= %s 0)))\n", r, r, v)
			fmt.Fprintf(&x.sb, "(assert (=> (and (<= %s (- 1.0)) (>= %s (- %s.0))) (and (>= (- (to_real %s) %s.0) %s) (< (- (- (to_real %s) %s.0) 1.0) %s))))\n", r, r, half, v, lim, r, v, lim, r)
		}
	} else {
		x.intT = append(x.intT, t)
	}
	return v
}

func (x *relax) sintOf(t *Term) string {
	if t.op == OConst {
		v := signExt(t.c, t.w)
		if v < 0 {
			return "(- " + new(big.Int).Neg(big.NewInt(v)).String() + ")"
		}
		return strconv.FormatInt(v, 10)
	}
	i := x.intOf(t)
	if t.slo >= 0 {
		return i
	}
	half := new(big.Int).Lsh(big.NewInt(1), uint(t.w-1)).String()
	full := new(big.Int).Lsh(big.NewInt(1), uint(t.w)).String()
	return fmt.Sprintf("(ite (>= %s %s) (- %s %s) %s)", i, half, i, full, i)
}

func (x *relax) realOf(t *Term) string {
	if t.op == OConst {
		f := t.F()
		if math.IsNaN(f) || math.IsInf(f, 0) {
			x.ok = false
			return "0.0"
		}
		return ratStr(f)
	}
	if v, ok := x.reals[t.id]; ok {
		return v
	}
	v := x.fresh("r")
	x.reals[t.id] = v
	fmt.Fprintf(&x.sb, "(declare-const %s Real)\n", v)
	if t.op == OVar {
		x.fvars = append(x.fvars, t)
	}
	lo, hi, fin := fpRange(t)
	if fin {
		fmt.Fprintf(&x.sb, "(assert (and (<= %s %s) (<= %s %s)))\n", ratStr(lo), v, v, ratStr(hi))
	}
	eps := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 53))
	tiny := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 1074))
	if t.w == WF32 {
		eps = new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 24))
		tiny = new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 149))
	}
	round := func(ex string) {
		e := x.fresh("e")
		fmt.Fprintf(&x.sb, "(define-fun %s () Real %s)\n", e, ex)
		fmt.Fprintf(&x.sb, "(assert (<= %s (+ %s (ite (>= %s 0.0) (* %s %s) (* (- %s) %s)) %s)))\n", v, e, e, ratS(eps), e, ratS(eps), e, ratS(tiny))
		fmt.Fprintf(&x.sb, "(assert (>= %s (- %s (ite (>= %s 0.0) (* %s %s) (* (- %s) %s)) %s)))\n", v, e, e, ratS(eps), e, ratS(eps), e, ratS(tiny))
	}
	rnd := round
	round = func(ex string) {
		rnd(ex)
		// rounding is monotone and 0 is representable
		e := fmt.Sprintf("e%d", x.n)
		fmt.Fprintf(&x.sb, "(assert (and (=> (>= %s 0.0) (>= %s 0.0)) (=> (<= %s 0.0) (<= %s 0.0))))\n", e, v, e, v)
	}
	if !fin {
		// may overflow or be NaN: leave unconstrained
		return v
	}
	switch t.op {
	case OU2F:
		if t.w == WF64 && t.args[0].uhi < 1<<53 {
			fmt.Fprintf(&x.sb, "(assert (= %s (to_real %s)))\n", v, x.intOf(t.args[0]))
		} else {
			round("(to_real " + x.intOf(t.args[0]) + ")")
		}
	case OS2F:
		if t.w == WF64 && t.args[0].slo > -(1<<53) && t.args[0].shi < 1<<53 {
			fmt.Fprintf(&x.sb, "(assert (= %s (to_real %s)))\n", v, x.sintOf(t.args[0]))
		} else {
			round("(to_real " + x.sintOf(t.args[0]) + ")")
		}
	case OFNeg:
		fmt.Fprintf(&x.sb, "(assert (= %s (- %s)))\n", v, x.realOf(t.args[0]))
	case OIte:
		fmt.Fprintf(&x.sb, "(assert (= %s (ite %s %s %s)))\n", v, x.boolOf(t.args[0]), x.realOf(t.args[1]), x.realOf(t.args[2]))
	case OFAdd:
		round(fmt.Sprintf("(+ %s %s)", x.realOf(t.args[0]), x.realOf(t.args[1])))
	case OFSub:
		round(fmt.Sprintf("(- %s %s)", x.realOf(t.args[0]), x.realOf(t.args[1])))
	case OFMul:
		if t.args[0].IsConst() || t.args[1].IsConst() {
			round(fmt.Sprintf("(* %s %s)", x.realOf(t.args[0]), x.realOf(t.args[1])))
		}
	case OFDiv:
		if t.args[1].IsConst() {
			inv := new(big.Rat).SetFloat64(t.args[1].F())
			inv.Inv(inv)
			round(fmt.Sprintf("(* %s %s)", ratS(inv), x.realOf(t.args[0])))
		}
	case OF2F:
		round(x.realOf(t.args[0]))
	}
	return v
}

func (x *relax) boolOf(t *Term) string {
	if t.op == OConst {
		return constStr(t)
	}
	if v, ok := x.bools[t.id]; ok {
		return v
	}
	var e string
	opaque := func() string {
		v := x.fresh("b")
		fmt.Fprintf(&x.sb, "(declare-const %s Bool)\n", v)
		return v
	}
	switch t.op {
	case OBNot:
		e = "(not " + x.boolOf(t.args[0]) + ")"
	case OBAnd:
		e = "(and " + x.boolOf(t.args[0]) + " " + x.boolOf(t.args[1]) + ")"
	case OBOr:
		e = "(or " + x.boolOf(t.args[0]) + " " + x.boolOf(t.args[1]) + ")"
	case OEq:
		a, b := t.args[0], t.args[1]
		if a.w == WBool {
			e = "(= " + x.boolOf(a) + " " + x.boolOf(b) + ")"
		} else {
			e = "(= " + x.intOf(a) + " " + x.intOf(b) + ")"
		}
	case OUlt:
		e = "(< " + x.intOf(t.args[0]) + " " + x.intOf(t.args[1]) + ")"
	case OSlt:
		e = "(< " + x.sintOf(t.args[0]) + " " + x.sintOf(t.args[1]) + ")"
	case OIte:
		e = fmt.Sprintf("(ite %s %s %s)", x.boolOf(t.args[0]), x.boolOf(t.args[1]), x.boolOf(t.args[2]))
	case OFLt, OFLe, OFEq:
		_, _, ok1 := fpRange(t.args[0])
		_, _, ok2 := fpRange(t.args[1])
		if !ok1 || !ok2 {
			e = opaque()
			break
		}
		op := map[Op]string{OFLt: "<", OFLe: "<=", OFEq: "="}[t.op]
		e = "(" + op + " " + x.realOf(t.args[0]) + " " + x.realOf(t.args[1]) + ")"
	default:
		e = opaque()
	}
	if len(e) > 200 {
		v := x.fresh("d")
		fmt.Fprintf(&x.sb, "(define-fun %s () Bool %s)\n", v, e)
		e = v
	}
	x.bools[t.id] = e
	return e
}

func (s *Solver) checkFP(set []*Term) (Res, Model) {
	s.FPq++
	t0 := time.Now()
	x := &relax{s: s, ints: map[int]string{}, bools: map[int]string{}, reals: map[int]string{}, ok: true}
	defer clearBounds(fpBounds(set))
	var asserts []string
	for _, t := range set {
		asserts = append(asserts, x.boolOf(t))
	}
	script := x.sb.String()
	for _, a := range asserts {
		script += "(assert " + a + ")\n"
	}
	if !x.ok {
		return Unknown, nil
	}
	block := ""
	var nonFP []*Term
	for _, t := range set {
		if !t.hasFP {
			nonFP = append(nonFP, t)
		}
	}
	for try := 0; try < 6; try++ {
		names := map[int]string{}
		for k, v := range x.ints {
			names[k] = v
		}
		for _, t := range x.fvars {
			names[t.id] = x.reals[t.id]
		}
		out := s.oneShot("z3-new", script+block+"(check-sat)\n", append(append([]*Term(nil), x.intT...), x.fvars...), names)
		s.Queries++
		if out.res == Unsat && try == 0 {
			s.Time += time.Since(t0)
			return Unsat, nil
		}
		if out.res != Sat {
			break
		}
		// map back to bit-vectors
		cs := append([]*Term(nil), nonFP...)
		blk := ""
		for i, t := range x.intT {
			v := out.vals[i]
			if v == nil || !v.IsUint64() {
				continue
			}
			cs = append(cs, s.c.Eq(t, s.c.Const(t.w, v.Uint64())))
			blk += fmt.Sprintf(" (= %s %s)", x.ints[t.id], v.String())
		}
		bad := false
		for _, t := range cs {
			if t.IsFalse() {
				bad = true
			}
		}
		if !bad {
			r, m := s.rawCheck(filterTrue(cs), true)
			if r == Sat {
				full := Model{}
				for k, v := range m {
					full[k] = v
				}
				for _, t := range x.fvars {
					if f, ok := out.reals[t.id]; ok {
						full[t.vars[0]] = fbits(t.w, f)
						blk += fmt.Sprintf(" (< (- %s %s) (/ 1.0 1000.0)) (< (- %s %s) (/ 1.0 1000.0))", x.reals[t.id], ratStr(f), ratStr(f), x.reals[t.id])
					}
				}
				all := true
				for _, t := range set {
					if s.c.Eval(t, full) != 1 {
						all = false
						break
					}
				}
				if all {
					s.Time += time.Since(t0)
					return Sat, full
				}
			}
		}
		if blk == "" {
			break
		}
		block += "(assert (not (and" + blk + ")))\n"
	}
	s.Time += time.Since(t0)
	// last resort: exact floating-point theory with a short budget
	old := s.timeout
	s.Close()
	s.timeout = 5 * time.Second
	r, m := s.rawCheck(set, true)
	s.Close()
	s.timeout = old
	if r == Sat {
		for _, t := range set {
			if s.c.Eval(t, m) != 1 {
				return Unknown, nil
			}
		}
	}
	return r, m
}

func filterTrue(cs []*Term) []*Term {
	var r []*Term
	for _, t := range cs {
		if !t.IsTrue() {
			r = append(r, t)
		}
	}
	return r
}

type oneRes struct {
	res  Res
	vals []*big.Int
	// values of floating-point variables, rounded
	reals map[int]float64
}

// fpBounds finds floating-point variables the set keeps between constants (which also says that they
// are numbers).
func fpBounds(set []*Term) []*Term {
	lo, hi := map[*Term]float64{}, map[*Term]float64{}
	var walk func(t *Term)
	walk = func(t *Term) {
		switch t.op {
		case OBAnd:
			for _, a := range t.args {
				walk(a)
			}
		case OFLe, OFLt, OFEq:
			a, b := t.args[0], t.args[1]
			if b.op == OVar && a.IsConst() && !math.IsInf(a.F(), 0) && !math.IsNaN(a.F()) {
				if v, ok := lo[b]; !ok || a.F() > v {
					lo[b] = a.F()
				}
				if t.op == OFEq {
					hi[b] = a.F()
				}
			}
			if a.op == OVar && b.IsConst() && !math.IsInf(b.F(), 0) && !math.IsNaN(b.F()) {
				if v, ok := hi[a]; !ok || b.F() < v {
					hi[a] = b.F()
				}
				if t.op == OFEq {
					lo[a] = b.F()
				}
			}
		}
	}
	for _, t := range set {
		walk(t)
	}
	var r []*Term
	for t, l := range lo {
		if h, ok := hi[t]; ok && l <= h {
			t.fset, t.flo, t.fhi = true, l, h
			r = append(r, t)
		}
	}
	return r
}

func clearBounds(ts []*Term) {
	for _, t := range ts {
		t.fset = false
	}
}

func (s *Solver) oneShot(bin, script string, ts []*Term, names map[int]string) oneRes {
	q := script
	if len(ts) > 0 {
		q += "(get-value ("
		for _, t := range ts {
			q += " " + names[t.id]
		}
		q += "))\n"
	}
	cmd := exec.Command(bin, "-in", "-smt2", "-t:"+strconv.Itoa(int(s.timeout/time.Millisecond)))
	cmd.Stdin = strings.NewReader(q)
	out, _ := cmd.Output()
	txt := string(out)
	var r oneRes
	switch {
	case strings.HasPrefix(txt, "sat"):
		r.res = Sat
	case strings.HasPrefix(txt, "unsat"):
		r.res = Unsat
		return r
	default:
		r.res = Unknown
		if strings.Contains(txt, "error") {
			s.Errors++
			fmt.Println("SOLVER ERROR:", firstLine(txt))
		}
		return r
	}
	r.reals = map[int]float64{}
	// parse ((i1 5) (i2 7))
	r.vals = make([]*big.Int, len(ts))
	for i, t := range ts {
		nm := names[t.id]
		k := strings.Index(txt, "("+nm+" ")
		if k < 0 {
			continue
		}
		rest := txt[k+len(nm)+2:]
		if isFP(t.w) {
			if f, ok := parseReal(rest); ok {
				r.reals[t.id] = f
			}
			continue
		}
		e := strings.IndexByte(rest, ')')
		v := new(big.Int)
		if _, ok := v.SetString(strings.TrimSpace(rest[:e]), 10); ok {
			r.vals[i] = v
		}
	}
	return r
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// parseReal reads 1.5, (- 1.5), (/ 1.0 3.0) or (- (/ 1.0 3.0)).
func parseReal(s string) (float64, bool) {
	var num func() (*big.Rat, bool)
	pos := 0
	skip := func() {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n') {
			pos++
		}
	}
	num = func() (*big.Rat, bool) {
		skip()
		if pos >= len(s) {
			return nil, false
		}
		if s[pos] == '(' {
			pos++
			skip()
			if pos >= len(s) {
				return nil, false
			}
			op := s[pos]
			pos++
			a, ok := num()
			if !ok {
				return nil, false
			}
			if op == '-' {
				a.Neg(a)
			} else if op == '/' {
				b, ok := num()
				if !ok || b.Sign() == 0 {
					return nil, false
				}
				a.Quo(a, b)
			} else {
				return nil, false
			}
			skip()
			if pos < len(s) && s[pos] == ')' {
				pos++
			}
			return a, true
		}
		st := pos
		for pos < len(s) && (s[pos] >= '0' && s[pos] <= '9' || s[pos] == '.') {
			pos++
		}
		if st == pos {
			return nil, false
		}
		return new(big.Rat).SetString(s[st:pos])
	}
	v, ok := num()
	if !ok {
		return 0, false
	}
	f, _ := v.Float64()
	return f, true
}
