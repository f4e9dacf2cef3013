package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type CallCtx struct {
	th     *Thread
	fn     *ssa.Function
	site   ssa.Instruction
	callTo ssa.Value
}

type intrinFn func(x *Exec, cc *CallCtx, args []Val) (Val, bool)

// packages whose initialisers are not executed (their globals are opaque)
var noInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "net": true, "reflect": true, "internal/poll": true,
	"github.com/sirupsen/logrus": true, "encoding/json": true, "crypto/tls": true, "internal/cpu": true,
	"golang.org/x/sys/unix": true, "sync": false, "internal/godebug": true, "log": true, "flag": true,
	"google.golang.org/protobuf/internal/impl": true, "github.com/golang/protobuf/proto": true,
	"google.golang.org/protobuf/proto": true, "internal/godebugs": true, "testing": true,
	"google.golang.org/protobuf/reflect/protoregistry": true, "google.golang.org/protobuf/runtime/protoimpl": true,
	"unicode": false,
}

func fnPkg(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if fn.Origin() != nil && fn.Origin() != fn {
		return fnPkg(fn.Origin())
	}
	return ""
}

func (x *Exec) isIntrinsic(fn *ssa.Function) bool {
	if fn == nil {
		return true
	}
	if _, ok := x.redirects[fn.String()]; ok {
		return false
	}
	return x.intrinsic(fn) != nil
}

func (x *Exec) intrinsic(fn *ssa.Function) intrinFn {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if h, ok := intrinTab[name]; ok {
		return h
	}
	p := fnPkg(fn)
	if p == x.rtPath {
		if h, ok := rtTab[fn.Name()]; ok {
			return h
		}
		panic(unsup("verifrt." + fn.Name()))
	}
	switch p {
	case "github.com/sirupsen/logrus":
		switch fn.Name() {
		case "ParseLevel", "String", "MarshalText":
			return nil
		case "Fatal", "Fatalf", "Fatalln", "Exit":
			return inExit1
		case "Panic", "Panicf", "Panicln":
			return func(x *Exec, cc *CallCtx, args []Val) (Val, bool) {
				x.goPanic(Iface{t: rtErrType, v: cstr("log.Panic")}, "log.Panic")
				return nil, true
			}
		}
		return inNop
	case "log":
		if strings.HasPrefix(fn.Name(), "Fatal") {
			return inExit1
		}
		return inNop
	}
	return nil
}

func (x *Exec) zeroRes(fn *ssa.Function) Val {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return x.zero(rs.At(0).Type())
	}
	return x.zero(rs)
}

func inNop(x *Exec, cc *CallCtx, args []Val) (Val, bool) {
	if rs := cc.fn.Signature.Results(); rs.Len() == 1 {
		if pt, ok := rs.At(0).Type().(*types.Pointer); ok {
			// a fresh object
			return Ptr{x.newObj(pt.Elem()), 0}, true
		}
	}
	return x.zeroRes(cc.fn), true
}

func inExit1(x *Exec, cc *CallCtx, args []Val) (Val, bool) { return x.exit(1) }

// exit ends the program: control returns to the innermost CatchExit frame.
func (x *Exec) exit(code uint64) (Val, bool) {
	th := x.st.threads[x.st.cur]
	for k := len(th.frames) - 1; k >= 0; k-- {
		if th.frames[k].exitTag {
			f := th.frames[k]
			th.frames = th.frames[:k]
			th.panics = nil
			// other goroutines die with the process
			for _, t := range x.st.threads {
				if t != th {
					t.done = true
				}
			}
			f.onRet = nil
			x.st.exitCh = int(code) + 1
			if f.callTo != nil {
				p := th.frames[len(th.frames)-1]
				x.set(p, f.callTo, x.Int(int64(code)))
				p.pc++
			} else if len(th.frames) > 0 {
				th.frames[len(th.frames)-1].pc++
			}
			return nil, true
		}
	}
	panic(killPath{"exit", fmt.Sprintf("os.Exit(%d) @ %s", code, x.where())})
}

func str(x *Exec, v Val) string {
	s, ok := v.(Str)
	if !ok || !s.concrete() {
		panic(unsup("concrete string expected"))
	}
	return s.s
}

func i64(v Val) int64 {
	t, ok := v.(*Term)
	if !ok || !t.IsConst() {
		panic(unsup("concrete integer expected"))
	}
	return signExt(t.c, t.w)
}

// ifaceArgs returns the elements of a ...interface{} slice.
func (x *Exec) varargs(v Val) []Val {
	s := v.(Slice)
	n := int(i64(s.len))
	var r []Val
	for k := 0; k < n; k++ {
		r = append(r, x.obj(s.obj).cell(s.off+k))
	}
	return r
}

func (x *Exec) errorNew(s Str) Val {
	p := x.prog.ImportedPackage("errors")
	t := p.Type("errorString").Type()
	id := x.alloc(&Object{cells: []Val{s}, typ: t})
	return Iface{t: types.NewPointer(t), v: Ptr{id, 0}}
}

var ptrMemo = map[types.Type]types.Type{}

// ---------- fmt

type fpiece struct {
	lit  string
	verb byte
	flag string
	wid  int
	prec int
}

func parseFmt(f string) []fpiece {
	var out []fpiece
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			out = append(out, fpiece{lit: f[i : i+j]})
			i += j
			continue
		}
		i++
		p := fpiece{wid: -1, prec: -1}
		for i < len(f) && strings.IndexByte("+-# 0", f[i]) >= 0 {
			p.flag += string(f[i])
			i++
		}
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			if p.wid < 0 {
				p.wid = 0
			}
			p.wid = p.wid*10 + int(f[i]-'0')
			i++
		}
		if i < len(f) && f[i] == '.' {
			i++
			p.prec = 0
			for i < len(f) && f[i] >= '0' && f[i] <= '9' {
				p.prec = p.prec*10 + int(f[i]-'0')
				i++
			}
		}
		if i >= len(f) {
			out = append(out, fpiece{lit: "%!(NOVERB)"})
			break
		}
		p.verb = f[i]
		i++
		if p.verb == '%' {
			p = fpiece{lit: "%"}
		}
		out = append(out, p)
	}
	return out
}

// goVal converts a concrete value to a Go value for native formatting.
func (x *Exec) goVal(v Val) (interface{}, bool) {
	ifc, ok := v.(Iface)
	if !ok {
		return nil, false
	}
	if ifc.t == nil {
		return nil, true
	}
	switch u := ifc.v.(type) {
	case *Term:
		if !u.IsConst() {
			return nil, false
		}
		if _, named := ifc.t.(*types.Named); named {
			if x.hasMethod(ifc.t, "String") || x.hasMethod(ifc.t, "Error") {
				return nil, false
			}
		}
		switch b := ifc.t.Underlying().(*types.Basic); b.Kind() {
		case types.Bool:
			return u.c == 1, true
		case types.Int:
			return int(u.c), true
		case types.Int8:
			return int8(u.c), true
		case types.Int16:
			return int16(u.c), true
		case types.Int32:
			return int32(u.c), true
		case types.Int64:
			return int64(u.c), true
		case types.Uint:
			return uint(u.c), true
		case types.Uint8:
			return uint8(u.c), true
		case types.Uint16:
			return uint16(u.c), true
		case types.Uint32:
			return uint32(u.c), true
		case types.Uint64:
			return u.c, true
		case types.Float64:
			return u.F(), true
		case types.Float32:
			return float32(u.F()), true
		}
	case Str:
		if u.concrete() {
			if _, named := ifc.t.(*types.Named); named && (x.hasMethod(ifc.t, "String") || x.hasMethod(ifc.t, "Error")) {
				return nil, false
			}
			return u.s, true
		}
	}
	return nil, false
}

func (x *Exec) hasMethod(t types.Type, n string) bool {
	methMu.Lock()
	defer methMu.Unlock()
	return x.prog.MethodSets.MethodSet(t).Lookup(nil, n) != nil
}

// sprintf models fmt.Sprintf. Symbolic pieces become byte terms where the layout is fixed
// (binary verbs with fixed width, strings) and opaque pieces otherwise.
func (x *Exec) sprintf(f string, args []Val) Str {
	res := Str{}
	k := 0
	for _, p := range parseFmt(f) {
		if p.verb == 0 {
			res = x.strCat(res, cstr(p.lit))
			continue
		}
		if k >= len(args) {
			res = x.strCat(res, cstr("%!"+string(p.verb)+"(MISSING)"))
			continue
		}
		a := args[k]
		k++
		verb := p.verb
		if verb == 'w' {
			verb = 'v'
		}
		spec := "%" + p.flag
		if p.wid >= 0 {
			spec += strconv.Itoa(p.wid)
		}
		if p.prec >= 0 {
			spec += "." + strconv.Itoa(p.prec)
		}
		spec += string(verb)
		if verb == 'T' && p.wid < 0 && p.prec < 0 {
			if ifc, ok := a.(Iface); ok {
				res = x.strCat(res, cstr(goTypeName(ifc.t)))
				continue
			}
		}
		if g, ok := x.goVal(a); ok {
			res = x.strCat(res, cstr(fmt.Sprintf(spec, g)))
			continue
		}
		res = x.strCat(res, x.fmtSym(spec, verb, p, a))
	}
	if k < len(args) {
		res = x.strCat(res, cstr("%!(EXTRA)"))
	}
	return res
}

// goTypeName is the name reflection gives a type.
func goTypeName(t types.Type) string {
	if t == nil {
		return "<nil>"
	}
	return types.TypeString(types.Default(t), func(p *types.Package) string { return p.Name() })
}

func (x *Exec) fmtSym(spec string, verb byte, p fpiece, a Val) Str {
	ifc, ok := a.(Iface)
	if !ok {
		return x.opaque("fmt:"+spec, a)
	}
	switch v := ifc.v.(type) {
	case Str:
		if (verb == 's' || verb == 'v') && p.wid < 0 && p.prec < 0 {
			return v
		}
	case *Term:
		if _, signed, ok := scalarW(ifc.t); ok && verb == 'b' && !isFP(v.w) && v.w > 0 && (!signed || v.slo >= 0) {
			// exactly wid digits when the value fits
			if p.wid > 0 && strings.Contains(p.flag, "0") && (p.wid >= v.w || v.uhi>>uint(p.wid) == 0) {
				bs := make([]*Term, p.wid)
				for k := 0; k < p.wid; k++ {
					bit := p.wid - 1 - k
					if bit >= v.w {
						bs[k] = x.c.Const(8, '0')
						continue
					}
					bs[k] = x.c.Concat(x.c.Const(7, 0x18), x.c.Extract(v, bit, bit))
				}
				return x.mkStr(bs)
			}
			// variable number of digits: fork on the bit length
			n := 1
			for n < v.w && !x.decide(x.c.Ult(v, x.c.Const(v.w, 1<<uint(n)))) {
				n++
			}
			wid := n
			pad := byte(' ')
			if p.wid > n {
				wid = p.wid
				if strings.Contains(p.flag, "0") {
					pad = '0'
				}
			}
			if strings.Contains(p.flag, "-") {
				return x.opaque("fmt:"+spec, a)
			}
			bs := make([]*Term, wid)
			for k := 0; k < wid; k++ {
				bit := wid - 1 - k
				if bit >= n {
					bs[k] = x.c.Const(8, uint64(pad))
				} else {
					bs[k] = x.c.Concat(x.c.Const(7, 0x18), x.c.Extract(v, bit, bit))
				}
			}
			return x.mkStr(bs)
		}
		_, signed, isNum := scalarW(ifc.t)
		plain := !x.hasMethod(ifc.t, "String") && !x.hasMethod(ifc.t, "Error")
		if v.w == WBool && (verb == 't' || verb == 'v') && p.wid < 0 && plain {
			if x.decide(v) {
				return cstr("true")
			}
			return cstr("false")
		}
		if isNum && v.w > 0 && !isFP(v.w) && plain {
			zero := p.flag == "0"
			switch {
			case (verb == 'd' || verb == 'v') && p.wid < 0 && p.flag == "":
				return x.itoa(v, signed)
			case verb == 'd' && p.wid > 0 && p.wid <= 5 && zero && (!signed || v.slo >= 0):
				if s, ok := x.digits(x.ext64(v, signed), p.wid, 10, 'a'); ok {
					return s
				}
			case (verb == 'x' || verb == 'X') && (!signed || v.slo >= 0) && (p.wid < 0 && p.flag == "" || zero && p.wid > 0):
				n := p.wid
				if n < 0 {
					n = 1
				}
				al := byte('a')
				if verb == 'X' {
					al = 'A'
				}
				if s, ok := x.digits(x.ext64(v, signed), n, 16, al); ok {
					return s
				}
			}
		}
		return x.opaque("fmt:"+spec, v)
	case Ptr:
		// errors: use the message where it is a plain stored string
		if v.obj != 0 && x.hasMethod(ifc.t, "Error") {
			return x.errText(ifc)
		}
	}
	return x.opaque("fmt:"+spec, a)
}

// unwrapErr follows the standard wrapping errors.
func (x *Exec) unwrapErr(e Iface) (Iface, bool) {
	p, ok := e.v.(Ptr)
	if !ok || p.obj == 0 {
		return e, false
	}
	switch e.t.String() {
	case "*fmt.wrapError":
		n, ok := x.obj(p.obj).cell(p.off + 1).(Iface)
		return n, ok
	case "*net.OpError", "*io/fs.PathError", "*os.SyscallError", "*net/url.Error":
		st := e.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "Err" {
				n, ok := x.obj(p.obj).cell(p.off + fieldOff(st, i)).(Iface)
				return n, ok
			}
		}
	}
	return e, false
}

func (x *Exec) errText(e Iface) Str {
	p, ok := e.v.(Ptr)
	if ok && p.obj != 0 {
		switch e.t.String() {
		case "*errors.errorString", "*fmt.wrapError":
			if s, ok := x.obj(p.obj).cell(p.off).(Str); ok {
				return s
			}
		}
	}
	return x.opaque("Error", e)
}

func inErrorf(x *Exec, cc *CallCtx, args []Val) (Val, bool) {
	f := args[0].(Str)
	if !f.concrete() {
		return x.errorNew(x.opaque("fmt", f)), true
	}
	va := x.varargs(args[1])
	s := x.sprintf(f.s, va)
	if strings.Contains(f.s, "%w") {
		k := 0
		for _, p := range parseFmt(f.s) {
			if p.verb == 0 {
				continue
			}
			if p.verb == 'w' && k < len(va) {
				if e, ok := va[k].(Iface); ok && e.t != nil && x.hasMethod(e.t, "Error") {
					t := x.prog.ImportedPackage("fmt").Type("wrapError").Type()
					id := x.alloc(&Object{cells: []Val{s, e}, typ: t})
					return Iface{t: types.NewPointer(t), v: Ptr{id, 0}}, true
				}
			}
			k++
		}
	}
	return x.errorNew(s), true
}

// stringers replaces arguments that have a String method by what it returns; false: a call of one has been
// pushed, and the formatting is executed again after it.
func (x *Exec) stringers(cc *CallCtx, args []Val, format *string) ([]Val, bool) {
	var done []string
	verbs := ""
	if format != nil {
		for _, p := range parseFmt(*format) {
			if p.verb != 0 {
				verbs += string(p.verb)
			}
		}
	}
	for k, a := range args {
		if format != nil && (k >= len(verbs) || !strings.ContainsRune("vsqxX", rune(verbs[k]))) {
			continue
		}
		e, ok := a.(Iface)
		if !ok || e.t == nil || x.hasMethod(e.t, "Error") || !x.hasMethod(e.t, "String") {
			continue
		}
		m := x.methodByName(e.t, "String")
		if m == nil || len(m.Blocks) == 0 || x.isIntrinsic(m) || m.Signature.Params().Len() != 0 || m.Signature.Results().Len() != 1 {
			continue
		}
		switch fnPkg(m) {
		case "time", "reflect", "net":
			continue
		}
		if p, ok := e.v.(Ptr); ok && p.obj == 0 {
			continue
		}
		key := fmt.Sprintf("stringer:%d:%d:%d", cc.th.id, len(cc.th.frames), k)
		if v, ok := x.st.kv[key]; ok && v != nil {
			if s, ok := v.(Str); ok {
				args[k] = Iface{t: types.Typ[types.String], v: s}
			}
			done = append(done, key)
			continue
		}
		fr := x.pushFrame(cc.th, m, []Val{e.v}, nil, nil)
		fr.redo = key
		return nil, false
	}
	for _, k := range done {
		x.st.kv[k] = nil
	}
	return args, true
}

func inSprint(ln bool) intrinFn {
	return func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
		va, ok := x.stringers(cc, x.varargs(a[0]), nil)
		if !ok {
			return pushedMarker, false
		}
		return x.sprint(va, ln), true
	}
}

// inFprint writes to anything but the standard files; kind: 0 Fprint, 1 Fprintln, 2 Fprintf
func inFprint(kind int) intrinFn {
	return func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
		w, ok := a[0].(Iface)
		if !ok || w.t == nil || w.t.String() == "*os.File" {
			return x.zeroRes(cc.fn), true
		}
		m := x.methodByName(w.t, "Write")
		var ff *string
		if kind == 2 {
			if f := a[1].(Str); f.concrete() {
				ff = &f.s
			} else {
				ff = new(string)
			}
		}
		va, ok := x.stringers(cc, x.varargs(a[len(a)-1]), ff)
		if !ok {
			return pushedMarker, false
		}
		var s Str
		if kind == 2 {
			f := a[1].(Str)
			if !f.concrete() {
				panic(unsup("formatted writing with an unknown format"))
			}
			s = x.sprintf(f.s, va)
		} else {
			s = x.sprint(va, kind == 1)
		}
		var res Val
		if x.invokeFn(cc.th, FuncV{fn: m}, []Val{w.v, x.newBytes(x.strBytes(s))}, cc.callTo, &res, cc.site) {
			return pushedMarker, false
		}
		return res, true
	}
}

func isStringArg(a Val) bool {
	e, ok := a.(Iface)
	if !ok || e.t == nil {
		return false
	}
	b, ok := e.t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// print-style concatenation
func (x *Exec) sprint(args []Val, ln bool) Str {
	r := Str{}
	for k, a := range args {
		if k > 0 && (ln || !isStringArg(a) && !isStringArg(args[k-1])) {
			r = x.strCat(r, cstr(" "))
		}
		r = x.strCat(r, x.sprintf("%v", []Val{a}))
	}
	if ln {
		r = x.strCat(r, cstr("\n"))
	}
	return r
}

// ---------- time

func (x *Exec) timeVal(clock *Term) Val {
	const unixToInternal int64 = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	ns := x.c.Const(64, 1000000000)
	nsec := x.c.Srem(clock, ns)
	sec := x.c.Add(x.c.Sdiv(clock, ns), x.Int(unixToInternal))
	tp := x.prog.ImportedPackage("time")
	if tp == nil {
		panic(unsup("time package"))
	}
	return Agg{nsec, sec, x.load(x.globalPtr(tp.Var("Local")), tp.Var("Local").Type().(*types.Pointer).Elem())}
}

var epochClock int64 = 1700000000000000000

func (x *Exec) newTimer(d *Term, ch int) {
	x.st.timers = append(x.st.timers, timerRec{when: x.c.Add(x.st.clock, d), ch: ch, active: true, obj: ch})
}

func (x *Exec) timerCh(p Val) (int, bool) {
	pp, ok := p.(Ptr)
	if !ok || pp.obj == 0 {
		return 0, false
	}
	ch, ok := x.obj(pp.obj).cell(pp.off).(ChanV)
	return ch.obj, ok
}

func (x *Exec) timerActive(ch int) bool {
	for k := range x.st.timers {
		if x.st.timers[k].ch == ch && x.st.timers[k].active {
			return true
		}
	}
	return false
}

func (x *Exec) stopTimer(ch int) *Term {
	was := false
	for k := range x.st.timers {
		if x.st.timers[k].ch == ch && x.st.timers[k].active {
			x.st.timers[k].active = false
			was = true
		}
	}
	return x.c.Bool(was)
}

func inAtomicLoad(x *Exec, cc *CallCtx, args []Val) (Val, bool) {
	t := cc.fn.Signature.Results().At(0).Type()
	return x.load(args[0], t), true
}

var intrinTab map[string]intrinFn

func nilOr(x *Exec, cc *CallCtx) Val { return x.zeroRes(cc.fn) }

func init() {
	intrinTab = map[string]intrinFn{
		"fmt.Sprintf": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			f := a[0].(Str)
			if !f.concrete() {
				return x.opaque("fmt", f), true
			}
			va, ok := x.stringers(cc, x.varargs(a[1]), &f.s)
			if !ok {
				return pushedMarker, false
			}
			return x.sprintf(f.s, va), true
		},
		"fmt.Sprint":   inSprint(false),
		"fmt.Sprintln": inSprint(true),
		"fmt.Errorf":   inErrorf,
		"fmt.Printf":   inNop,
		"fmt.Print":    inNop,
		"fmt.Println":  inNop,
		"fmt.Fprintf":  inFprint(2),
		"fmt.Fprint":   inFprint(0),
		"fmt.Fprintln": inFprint(1),
		"fmt.init":     inNop,

		"os.Exit": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			c := x.concretise(a[0].(*Term))
			return x.exit(c)
		},

		// ---- sync
		"(*sync.Mutex).Lock":      inLock,
		"(*sync.Mutex).Unlock":    inUnlock,
		"(*sync.Mutex).TryLock":   inTryLock,
		"(*sync.RWMutex).Lock":    inLock,
		"(*sync.RWMutex).Unlock":  inUnlock,
		"(*sync.RWMutex).RLock":   inRLock,
		"(*sync.RWMutex).RUnlock": inRUnlock,
		"(*sync.WaitGroup).Add": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			k := "wg:" + x.key(a[0])
			x.st.locks[k] += int(i64(a[1]))
			if x.st.locks[k] < 0 {
				x.goPanic(Iface{t: rtErrType, v: cstr("sync: negative WaitGroup counter")}, "sync: negative WaitGroup counter")
			}
			x.wakeAll()
			return nil, true
		},
		"(*sync.WaitGroup).Done": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			x.st.locks["wg:"+x.key(a[0])]--
			x.wakeAll()
			return nil, true
		},
		"(*sync.WaitGroup).Wait": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			if x.st.locks["wg:"+x.key(a[0])] > 0 {
				cc.th.parked = true
				return nil, true
			}
			return nil, true
		},
		"(*sync.Once).Do":            inOnceDo,
		"(*sync.Once).doSlow":        nil,
		"(*sync.Pool).Get":           inPoolGet,
		"(*sync.Pool).Put":           inPoolPut,
		"runtime.SetFinalizer":       inNop,
		"runtime.KeepAlive":          inNop,
		"runtime.GC":                 inNop,
		"runtime.Gosched":            inYield,
		"runtime.GOMAXPROCS":         func(x *Exec, cc *CallCtx, a []Val) (Val, bool) { return x.Int(4), true },
		"runtime.NumCPU":             func(x *Exec, cc *CallCtx, a []Val) (Val, bool) { return x.Int(4), true },
		"runtime.memhash":            nil,
		"internal/abi.NoEscape":      func(x *Exec, cc *CallCtx, a []Val) (Val, bool) { return a[0], true },
		"internal/abi.Escape":        func(x *Exec, cc *CallCtx, a []Val) (Val, bool) { return a[0], true },
		"internal/race.Enable":       inNop,
		"internal/race.Disable":      inNop,
		"internal/race.Acquire":      inNop,
		"internal/race.Release":      inNop,
		"strings.noescape":           func(x *Exec, cc *CallCtx, a []Val) (Val, bool) { return a[0], true },
		"internal/stringslite.Clone": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) { return a[0], true },
		"strings.Clone":              func(x *Exec, cc *CallCtx, a []Val) (Val, bool) { return a[0], true },

		// ---- bytealg
		"internal/bytealg.IndexByte": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			return x.indexByte(x.sliceTerms(a[0].(Slice)), a[1].(*Term)), true
		},
		"internal/bytealg.IndexByteString": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			return x.indexByte(x.strBytes(a[0].(Str)), a[1].(*Term)), true
		},
		"internal/bytealg.Count": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			return x.countByte(x.sliceTerms(a[0].(Slice)), a[1].(*Term)), true
		},
		"internal/bytealg.CountString": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			return x.countByte(x.strBytes(a[0].(Str)), a[1].(*Term)), true
		},
		"internal/bytealg.Equal": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			return x.strEq(Str{b: x.sliceTerms(a[0].(Slice))}.norm(x), Str{b: x.sliceTerms(a[1].(Slice))}.norm(x)), true
		},
		"bytes.Equal": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			sa, sb := a[0].(Slice), a[1].(Slice)
			if !x.decide(x.c.Eq(sa.len, sb.len)) {
				return x.c.False, true
			}
			return x.strEq(Str{b: x.sliceTerms(sa)}.norm(x), Str{b: x.sliceTerms(sb)}.norm(x)), true
		},
		"internal/bytealg.MakeNoZero": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			n := int(x.concretise(a[0].(*Term)))
			z := x.c.Const(8, 0)
			bs := make([]*Term, n)
			for k := range bs {
				bs[k] = z
			}
			return x.newBytes(bs), true
		},
		"internal/bytealg.IndexString": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			s, t := a[0].(Str), a[1].(Str)
			if s.concrete() && t.concrete() {
				return x.Int(int64(strings.Index(s.s, t.s))), true
			}
			sb, tb := x.strBytes(s), x.strBytes(t)
			for k := 0; k+len(tb) <= len(sb); k++ {
				if x.decide(x.strEq(x.mkStr(sb[k:k+len(tb)]), t)) {
					return x.Int(int64(k)), true
				}
			}
			return x.Int(-1), true
		},
		"strings.Index": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			s, t := a[0].(Str), a[1].(Str)
			if s.concrete() && t.concrete() {
				return x.Int(int64(strings.Index(s.s, t.s))), true
			}
			sb, tb := x.strBytes(s), x.strBytes(t)
			for k := 0; k+len(tb) <= len(sb); k++ {
				if x.decide(x.strEq(x.mkStr(sb[k:k+len(tb)]), t)) {
					return x.Int(int64(k)), true
				}
			}
			return x.Int(-1), true
		},
		"strings.Count": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			s, t := a[0].(Str), a[1].(Str)
			if s.concrete() && t.concrete() {
				return x.Int(int64(strings.Count(s.s, t.s))), true
			}
			if t.concrete() && len(t.s) == 1 {
				return x.countByte(x.strBytes(s), x.c.Const(8, uint64(t.s[0]))), true
			}
			return nil, false
		},
		"strings.Repeat": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			s := a[0].(Str)
			n := int64(x.concretise(a[1].(*Term)))
			if n < 0 {
				x.goPanic(Iface{t: rtErrType, v: cstr("strings: negative Repeat count")}, "strings: negative Repeat count")
				return nil, true
			}
			r := Str{}
			for k := int64(0); k < n; k++ {
				r = x.strCat(r, s)
			}
			return r, true
		},
		"math.Float64bits": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			t := a[0].(*Term)
			if t.IsConst() {
				return x.c.Const(64, t.c), true
			}
			panic(unsup("math.Float64bits of symbolic value"))
		},
		"math.Float32bits": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			t := a[0].(*Term)
			if t.IsConst() {
				return x.c.Const(32, t.c), true
			}
			panic(unsup("math.Float32bits of symbolic value"))
		},
		"math.Float32frombits": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			t := a[0].(*Term)
			if t.IsConst() {
				return x.c.Const(WF32, t.c), true
			}
			panic(unsup("math.Float32frombits of symbolic value"))
		},
		"math.Float64frombits": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			t := a[0].(*Term)
			if t.IsConst() {
				return x.c.Const(WF64, t.c), true
			}
			panic(unsup("math.Float64frombits of symbolic value"))
		},
		"math.Floor": nil, "math.Trunc": inFTrunc("trunc"), "math.floor": nil,
		"math.Abs": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			t := a[0].(*Term)
			return x.c.Ite(x.c.FLt(t, x.c.F64(0)), x.c.FNeg(t), t), true
		},
		"math.IsNaN": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			t := a[0].(*Term)
			return x.c.Not(x.c.FEq(t, t)), true
		},
		"math.IsInf": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			t := a[0].(*Term)
			s := i64(a[1])
			inf := x.c.F64(inf(1))
			ninf := x.c.F64(inf_(-1))
			r := x.c.False
			if s >= 0 {
				r = x.c.Or(r, x.c.FEq(t, inf))
			}
			if s <= 0 {
				r = x.c.Or(r, x.c.FEq(t, ninf))
			}
			return r, true
		},
		"math.Round": inRound,

		// ---- time
		"time.now": nil,
		"time.Now": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			return x.timeVal(x.c.Add(x.st.clock, x.Int(epochClock))), true
		},
		"(time.Time).Format": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			lay := a[1].(Str)
			t := a[0].(Agg)
			if lay.concrete() && lay.s == "2006-01-02T15:04:05Z07:00" {
				// UTC only: loc nil or &utcLoc
				loc := t[2].(Ptr)
				kind := "time.RFC3339"
				tp := x.prog.ImportedPackage("time")
				utc := x.globalPtr(tp.Var("utcLoc")).(Ptr)
				if loc.obj != 0 && loc != utc {
					kind = "time.RFC3339local"
				}
				wall, ext := t[0].(*Term), t[1].(*Term)
				sec := ext
				if wall.IsConst() && wall.c>>63 == 1 {
					panic(unsup("Format of monotonic time"))
				}
				return x.opaque(kind, sec), true
			}
			return x.opaque("time.Format", lay, t), true
		},
		"time.NewTimer": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			tt := cc.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
			ch := x.alloc(&Object{ch: &ChanObj{cap: 1}})
			id := x.newObj(tt)
			o := x.wobj(id)
			o.cells[0] = ChanV{ch}
			x.newTimer(a[0].(*Term), ch)
			return Ptr{id, 0}, true
		},
		"(*time.Timer).Reset": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			ch, ok := x.timerCh(a[0])
			if !ok {
				x.rtPanic("invalid memory address or nil pointer dereference")
				return nil, true
			}
			if f, ok := x.timerFn(ch); ok {
				was := x.stopTimer(ch)
				x.st.timers = append(x.st.timers, timerRec{when: x.c.Add(x.st.clock, a[1].(*Term)), ch: ch, fn: f, active: true})
				return was, true
			}
			was := x.stopTimer(ch)
			x.wobj(ch).ch.buf = nil
			x.newTimer(a[1].(*Term), ch)
			return was, true
		},
		"(*time.Timer).Stop": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			ch, ok := x.timerCh(a[0])
			if !ok {
				x.rtPanic("invalid memory address or nil pointer dereference")
				return nil, true
			}
			return x.stopTimer(ch), true
		},
		"time.AfterFunc": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			tt := cc.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
			ch := x.alloc(&Object{ch: &ChanObj{cap: 1}})
			id := x.newObj(tt)
			x.wobj(id).cells[0] = ChanV{ch}
			x.st.timers = append(x.st.timers, timerRec{when: x.c.Add(x.st.clock, a[0].(*Term)), ch: ch, fn: a[1].(FuncV), active: true})
			return Ptr{id, 0}, true
		},
		"time.After": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			ch := x.alloc(&Object{ch: &ChanObj{cap: 1}})
			x.newTimer(a[0].(*Term), ch)
			return ChanV{ch}, true
		},
		"time.Sleep": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			x.st.clock = x.c.Add(x.st.clock, a[0].(*Term))
			x.yield(cc.th)
			return nil, true
		},
		"time.runtimeNano": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) { return x.st.clock, true },
		"(*time.Location).get": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			// local time zone is treated as UTC
			if p, ok := a[0].(Ptr); ok {
				tp := x.prog.ImportedPackage("time")
				if p == x.globalPtr(tp.Var("localLoc")).(Ptr) || p.obj == 0 {
					return x.globalPtr(tp.Var("utcLoc")), true
				}
			}
			return a[0], true
		},

		// ---- errors
		"errors.Is": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			e, t := a[0].(Iface), a[1].(Iface)
			for n := 0; n < 10; n++ {
				if e.t == nil || t.t == nil {
					return x.c.Bool(e.t == nil && t.t == nil), true
				}
				if types.Identical(e.t, t.t) {
					q := x.eqVals(e.v, t.v)
					if q.IsTrue() {
						return q, true
					}
				}
				if n, ok := x.unwrapErr(e); ok {
					e = n
					continue
				}
				if x.hasMethod(e.t, "Is") || x.hasMethod(e.t, "Unwrap") {
					return nil, false
				}
				return x.c.False, true
			}
			return x.c.False, true
		},
		"errors.As": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			e := a[0].(Iface)
			tgt := a[1].(Iface)
			pt, ok := tgt.t.(*types.Pointer)
			if !ok {
				panic(unsup("errors.As target"))
			}
			want := pt.Elem()
			for n := 0; n < 10 && e.t != nil; n++ {
				if it, isI := want.Underlying().(*types.Interface); isI {
					if x.implements(e.t, it) {
						x.store(tgt.v, e, want)
						return x.c.True, true
					}
				} else if types.Identical(e.t, want) {
					x.store(tgt.v, e.v, want)
					return x.c.True, true
				}
				if n, ok := x.unwrapErr(e); ok {
					e = n
					continue
				}
				break
			}
			return x.c.False, true
		},
		"errors.New":        func(x *Exec, cc *CallCtx, a []Val) (Val, bool) { return x.errorNew(a[0].(Str)), true },
		"strconv.quoteWith": nil,
		"strconv.ParseUint": inParseUint,
		"unique.runtime_registerUniqueMapCleanup": inNop,
		"strconv.Itoa": func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			t := a[0].(*Term)
			if t.IsConst() {
				return cstr(strconv.Itoa(int(t.c))), true
			}
			return x.itoa(t, true), true
		},
		"strconv.FormatInt":  inFormatInt,
		"strconv.FormatUint": inFormatInt,
	}
	for k, h := range intrinTab {
		if h == nil {
			delete(intrinTab, k)
		}
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		intrinTab["sync/atomic.Load"+ty] = inAtomicLoad
		intrinTab["sync/atomic.Store"+ty] = inAtomicStore
		intrinTab["sync/atomic.Add"+ty] = inAtomicAdd
		intrinTab["sync/atomic.CompareAndSwap"+ty] = inAtomicCAS
		intrinTab["sync/atomic.Swap"+ty] = inAtomicSwap
	}
	for _, p := range []string{"(*sync/atomic.Value).", "(*sync/atomic.Pointer[T])."} {
		intrinTab[p+"Load"] = func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			if v, ok := x.st.kv["av:"+x.key(a[0])]; ok {
				return v, true
			}
			return x.zeroRes(cc.fn), true
		}
		intrinTab[p+"Store"] = func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
			x.st.kv["av:"+x.key(a[0])] = a[1]
			return nil, true
		}
	}
}

func (x *Exec) timerFn(ch int) (FuncV, bool) {
	for k := range x.st.timers {
		if x.st.timers[k].ch == ch && x.st.timers[k].fn.fn != nil {
			return x.st.timers[k].fn, true
		}
	}
	return FuncV{}, false
}

func (s Str) norm(x *Exec) Str { return x.mkStr(s.b) }

func (x *Exec) ext64(v *Term, signed bool) *Term {
	switch {
	case v.w == 64:
		return v
	case signed:
		return x.c.Sext(v, 64)
	}
	return x.c.Zext(v, 64)
}

// itoa gives the decimal digits when their number is known, an opaque text otherwise.
func (x *Exec) itoa(v *Term, signed bool) Str {
	t := x.ext64(v, signed)
	if !signed || t.slo >= 0 {
		n, lim := 1, uint64(10)
		for n < 5 && t.ulo >= lim {
			n, lim = n+1, lim*10
		}
		if t.ulo >= lim/10 || n == 1 {
			if s, ok := x.digits(t, n, 10, 'a'); ok {
				return s
			}
		}
	}
	return x.opaque("itoa", t)
}

// digits gives exactly n digits of a value that has no more.
func (x *Exec) digits(t *Term, n int, base uint64, al byte) (Str, bool) {
	lim := uint64(1)
	for i := 0; i < n; i++ {
		if lim > 1<<56/base {
			return Str{}, false
		}
		lim *= base
	}
	if t.uhi >= lim {
		return Str{}, false
	}
	bs := make([]*Term, n)
	for k := n - 1; k >= 0; k-- {
		var d *Term
		if base == 16 {
			d = x.c.Zext(x.c.Extract(t, 4*(n-1-k)+3, 4*(n-1-k)), 8)
			bs[k] = x.c.Ite(x.c.Ult(d, x.c.Const(8, 10)), x.c.Add(d, x.c.Const(8, '0')), x.c.Add(d, x.c.Const(8, uint64(al)-10)))
			continue
		}
		d = x.c.Extract(t, 31, 0)
		p := uint64(1)
		for i := k; i < n-1; i++ {
			p *= 10
		}
		if p > 1 {
			d = x.c.Udiv(d, x.c.Const(32, p))
		}
		if k > 0 {
			d = x.c.Urem(d, x.c.Const(32, 10))
		}
		bs[k] = x.c.Concat(x.c.Const(4, 3), x.c.Extract(d, 3, 0))
	}
	return x.mkStr(bs), true
}

func inFormatInt(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
	t := a[0].(*Term)
	if t.IsConst() {
		if strings.HasSuffix(cc.fn.Name(), "Uint") {
			return cstr(strconv.FormatUint(t.c, int(i64(a[1])))), true
		}
		return cstr(strconv.FormatInt(int64(t.c), int(i64(a[1])))), true
	}
	b, ok := a[1].(*Term)
	if ok && b.IsConst() && b.c == 10 {
		return x.itoa(t, cc.fn.Name() != "FormatUint"), true
	}
	if ok && b.IsConst() && b.c == 16 && (cc.fn.Name() == "FormatUint" || t.slo >= 0) {
		if s, ok := x.digits(t, 1, 16, 'a'); ok {
			return s, true
		}
	}
	if ok && b.IsConst() && b.c == 2 && (cc.fn.Name() == "FormatUint" || t.slo >= 0) {
		return x.fmtSym("%b", 'b', fpiece{verb: 'b', wid: -1, prec: -1}, Iface{t: types.Typ[types.Uint64], v: t}), true
	}
	return x.opaque("FormatInt", a...), true
}

// inParseUint models base-2 parsing of short digit strings whose bytes are known to be digits or
// can be split cheaply; every other use runs the real implementation.
func inParseUint(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
	s := a[0].(Str)
	base, ok1 := a[1].(*Term)
	bitSize, ok2 := a[2].(*Term)
	if s.concrete() || s.op != nil || !ok1 || !ok2 || !base.IsConst() || base.c != 2 || !bitSize.IsConst() {
		return nil, false
	}
	bs := bitSize.c
	if bs == 0 {
		bs = 64
	}
	if uint64(len(s.b)) > bs || len(s.b) == 0 || len(s.b) > 63 {
		return nil, false
	}
	r := x.c.Const(64, 0)
	for _, t := range s.b {
		// t must be '0' or '1'
		if t.k0&^1 == ^uint64(0x31)&0xfe && t.k1 == 0x30 {
			r = x.c.Add(x.c.ShlC(r, 1), x.c.Zext(x.c.Extract(t, 0, 0), 64))
			continue
		}
		isDig := x.c.Or(x.c.Eq(t, x.c.Const(8, '0')), x.c.Eq(t, x.c.Const(8, '1')))
		if !x.decide(isDig) {
			return nil, false
		}
		r = x.c.Add(x.c.ShlC(r, 1), x.c.Zext(x.c.Extract(t, 0, 0), 64))
	}
	return Agg{r, Iface{}}, true
}

func inFTrunc(n string) intrinFn {
	return func(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
		t := a[0].(*Term)
		lo, hi, ok := fpRange(t)
		if !ok || lo <= -9e15 || hi >= 9e15 {
			panic(unsup("math." + n + " of unbounded value"))
		}
		return x.c.ToF(x.c.FToInt(t, 64, true), true, WF64), true
	}
}

// math.Round for values of moderate size: trunc(x+copysign(0.5,x)) differs for 0.5-ulp; handled exactly:
// round half away from zero: t=trunc(x); if |x-t|>=0.5 then t += copysign(1,x)
func inRound(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
	t := a[0].(*Term)
	lo, hi, ok := fpRange(t)
	if !ok || lo <= -9e15 || hi >= 9e15 {
		panic(unsup("math.Round of unbounded value"))
	}
	tr := x.c.ToF(x.c.FToInt(t, 64, true), true, WF64)
	d := x.c.FBin(OFSub, t, tr)
	up := x.c.FLe(x.c.F64(0.5), d)
	dn := x.c.FLe(d, x.c.F64(-0.5))
	one := x.c.F64(1)
	return x.c.Ite(up, x.c.FBin(OFAdd, tr, one), x.c.Ite(dn, x.c.FBin(OFSub, tr, one), tr)), true
}

func (x *Exec) indexByte(b []*Term, t *Term) Val {
	for k, e := range b {
		q := x.c.Eq(e, t)
		if q.IsFalse() {
			continue
		}
		if x.decide(q) {
			return x.Int(int64(k))
		}
	}
	return x.Int(-1)
}

func (x *Exec) countByte(b []*Term, t *Term) Val {
	n := int64(0)
	for _, e := range b {
		q := x.c.Eq(e, t)
		if q.IsFalse() {
			continue
		}
		if x.decide(q) {
			n++
		}
	}
	return x.Int(n)
}

func inAtomicStore(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
	x.store(a[0], a[1], cc.fn.Signature.Params().At(1).Type())
	return nil, true
}
func inAtomicAdd(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
	t := cc.fn.Signature.Params().At(1).Type()
	v := x.c.Add(x.load(a[0], t).(*Term), a[1].(*Term))
	x.store(a[0], v, t)
	return v, true
}
func inAtomicSwap(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
	t := cc.fn.Signature.Params().At(1).Type()
	v := x.load(a[0], t)
	x.store(a[0], a[1], t)
	return v, true
}
func inAtomicCAS(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
	t := cc.fn.Signature.Params().At(1).Type()
	v := x.load(a[0], t)
	if x.decide(x.eqVals(v, a[1])) {
		x.store(a[0], a[2], t)
		return x.c.True, true
	}
	return x.c.False, true
}

func inLock(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
	if p, ok := a[0].(Ptr); ok && p.obj == 0 {
		x.rtPanic("invalid memory address or nil pointer dereference")
		return nil, true
	}
	k := "mu:" + x.key(a[0])
	if x.st.locks[k] != 0 {
		cc.th.parked = true
		return nil, true
	}
	x.st.locks[k] = -1
	return nil, true
}
func inTryLock(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
	k := "mu:" + x.key(a[0])
	if x.st.locks[k] != 0 {
		return x.c.False, true
	}
	x.st.locks[k] = -1
	return x.c.True, true
}
func inUnlock(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
	k := "mu:" + x.key(a[0])
	if x.st.locks[k] != -1 {
		panic(killPath{"panic", "fatal error: sync: unlock of unlocked mutex @ " + x.where()})
	}
	x.st.locks[k] = 0
	x.wakeAll()
	return nil, true
}
func inRLock(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
	k := "mu:" + x.key(a[0])
	if x.st.locks[k] < 0 {
		cc.th.parked = true
		return nil, true
	}
	x.st.locks[k]++
	return nil, true
}
func inRUnlock(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
	k := "mu:" + x.key(a[0])
	if x.st.locks[k] <= 0 {
		panic(killPath{"panic", "fatal error: sync: RUnlock of unlocked RWMutex @ " + x.where()})
	}
	x.st.locks[k]--
	x.wakeAll()
	return nil, true
}

func inOnceDo(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
	k := "once:" + x.key(a[0])
	if x.st.locks[k] != 0 {
		return nil, true
	}
	x.st.locks[k] = 1
	f := a[1].(FuncV)
	var res Val
	if x.invokeFn(cc.th, f, nil, nil, &res, cc.site) {
		if x.st.race != nil {
			p, th := a[0].(Ptr), x.st.cur
			cc.th.frames[len(cc.th.frames)-1].onRet = func(x *Exec, v Val) Val {
				x.syncEdge(x.st.threads[th], fmt.Sprintf("%d.%d", p.obj, p.off))
				return v
			}
		}
		// the frame's return advances the caller
		return pushedMarker, false
	}
	return nil, true
}

func inRepo(x *Exec, cc *CallCtx) bool {
	if cc.site == nil || cc.site.Parent() == nil || cc.site.Parent().Pkg == nil {
		return false
	}
	return strings.HasPrefix(cc.site.Parent().Pkg.Pkg.Path(), x.modPath)
}

// inPoolPut: what the repository puts into a pool is what it gets next; the standard library's pools are not modelled.
func inPoolPut(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
	if !inRepo(x, cc) {
		return nil, true
	}
	if v, ok := a[1].(Iface); ok && v.t == nil {
		return nil, true
	}
	k := "pool:" + x.key(a[0])
	l, _ := x.st.kv[k].(Agg)
	x.st.kv[k] = append(append(Agg{}, l...), a[1])
	x.usedPool = true
	return nil, true
}

func inPoolGet(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
	p := a[0].(Ptr)
	k := "pool:" + x.key(a[0])
	if l, _ := x.st.kv[k].(Agg); len(l) > 0 {
		x.st.kv[k] = append(Agg{}, l[:len(l)-1]...)
		return l[len(l)-1], true
	}
	o := x.obj(p.obj)
	// the New field is the last slot of the struct
	pt := cc.fn.Signature.Recv().Type().(*types.Pointer).Elem()
	st := pt.Underlying().(*types.Struct)
	fo := -1
	for k := 0; k < st.NumFields(); k++ {
		if st.Field(k).Name() == "New" {
			fo = fieldOff(st, k)
		}
	}
	f, ok := o.cell(p.off + fo).(FuncV)
	if !ok || f.fn == nil {
		return Iface{}, true
	}
	var res Val
	if x.invokeFn(cc.th, f, nil, cc.callTo, &res, cc.site) {
		return pushedMarker, false
	}
	return res, true
}

// yield lets other goroutines run.
func (x *Exec) yield(th *Thread) {
	s := x.st
	var run []int
	for i, t := range s.threads {
		if !t.done && !t.parked {
			run = append(run, i)
		}
	}
	if len(run) < 2 {
		return
	}
	if s.interl {
		s.yieldTo = x.choose("yield", len(run))
		s.cur2 = run[s.yieldTo]
		s.sw = true
		return
	}
	for _, i := range run {
		if i > s.cur {
			s.cur2 = i
			s.sw = true
			return
		}
	}
	s.cur2 = run[0]
	s.sw = true
}

func inYield(x *Exec, cc *CallCtx, a []Val) (Val, bool) {
	x.yield(cc.th)
	return nil, true
}
