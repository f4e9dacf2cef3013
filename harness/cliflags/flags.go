// Package cliflags models the command line and the end of a process. Native runs use the real flag package.
package cliflags

import (
	"flag"
	"fmt"
	"io"
	"os"
	"strconv"
	"strings"
	"time"

	rt "github.com/ElectroUnion/egts-gate/internal/verifrt"
)

// Arg is one value given on the command line.
type Arg struct {
	Name string
	// Kind: 's' text, 'i' whole number, 'f' number
	Kind byte
	S    string
	I    int
	F    float64
}

func (a Arg) text() string {
	switch a.Kind {
	case 'i':
		return strconv.Itoa(a.I)
	case 'f':
		return strconv.FormatFloat(a.F, 'g', -1, 64)
	}
	return a.S
}

type slot struct {
	fs   *flag.FlagSet
	name string
	def  string
	set  func(a Arg) bool
	seen bool
}

// set of the command line itself: nil
type parsedSet struct{ fs *flag.FlagSet }

var (
	given  []Arg
	slots  []*slot
	parsed []parsedSet
)

// what package level variables declared
var (
	ran     bool
	base    []*slot
	baseSet *flag.FlagSet
)

func init() {
	if rt.Symbolic() {
		flag.CommandLine = new(flag.FlagSet)
		flag.Usage = func() {}
	}
}

// Exit ends the process.
type Exit struct{ Code int }

// Run executes a main function on a command line and gives its exit code.
func Run(main func(), args ...Arg) (code int) {
	if !ran {
		ran, base, baseSet = true, slots, flag.CommandLine
	}
	given, slots, parsed = args, append([]*slot(nil), base...), nil
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(Exit); ok {
				code = x.Code
				return
			}
			if er, ok := e.(error); ok && !rt.Symbolic() && flagError(er.Error()) {
				code = 2
				return
			}
			panic(e)
		}
	}()
	os.Args = []string{"program"}
	for _, a := range args {
		if rt.Symbolic() {
			// the values are delivered by the models below
			os.Args = append(os.Args, "-"+a.Name)
		} else {
			os.Args = append(os.Args, "-"+a.Name+"="+a.text())
		}
	}
	if !rt.Symbolic() {
		flag.CommandLine = flag.NewFlagSet("program", flag.PanicOnError)
		flag.CommandLine.SetOutput(devNull{})
		// flags of package level variables
		baseSet.VisitAll(func(f *flag.Flag) {
			f.Value.Set(f.DefValue)
			flag.CommandLine.Var(f.Value, f.Name, f.Usage)
		})
	}
	main()
	return 0
}

type devNull struct{}

func (devNull) Write(p []byte) (int, error) { return len(p), nil }

func flagError(s string) bool {
	return strings.HasPrefix(s, "flag provided but not defined") || strings.HasPrefix(s, "invalid value") || strings.HasPrefix(s, "invalid boolean")
}

func add(fs *flag.FlagSet, name, def string, set func(a Arg) bool) {
	if fs == flag.CommandLine {
		fs = nil
	}
	slots = append(slots, &slot{fs: fs, name: name, def: def, set: set})
}

func parse(fs *flag.FlagSet) error {
	if fs == flag.CommandLine {
		fs = nil
	}
	parsed = append(parsed, parsedSet{fs})
	for _, a := range given {
		ok := false
		for _, s := range slots {
			if s.fs == fs && s.name == a.Name {
				ok = s.set(a)
				s.seen = true
			}
		}
		if !ok {
			return fmt.Errorf("flag provided but not defined: -%s", a.Name)
		}
	}
	return nil
}

//verif:model flag.Parse
func VerifParse() {
	if parse(nil) != nil {
		panic(Exit{2})
	}
}

// handling of errors of a flag set made by the program
var handling = map[*flag.FlagSet]flag.ErrorHandling{}

//verif:model flag.NewFlagSet
func VerifNewFlagSet(name string, h flag.ErrorHandling) *flag.FlagSet {
	fs := new(flag.FlagSet)
	handling[fs] = h
	return fs
}

//verif:model (*flag.FlagSet).Parse
func VerifSetParse(fs *flag.FlagSet, args []string) error {
	err := parse(fs)
	if err != nil && handling[fs] != flag.ContinueOnError {
		panic(Exit{2})
	}
	return err
}

//verif:model (*flag.FlagSet).Parsed
func VerifSetParsed(fs *flag.FlagSet) bool {
	if fs == flag.CommandLine {
		fs = nil
	}
	for _, p := range parsed {
		if p.fs == fs {
			return true
		}
	}
	return false
}

//verif:model flag.Parsed
func VerifParsed() bool { return VerifSetParsed(nil) }

//verif:model (*flag.FlagSet).Visit
func VerifSetVisit(fs *flag.FlagSet, fn func(*flag.Flag)) { visit(fs, fn, false) }

//verif:model (*flag.FlagSet).VisitAll
func VerifSetVisitAll(fs *flag.FlagSet, fn func(*flag.Flag)) { visit(fs, fn, true) }

//verif:model flag.Visit
func VerifVisit(fn func(*flag.Flag)) { visit(nil, fn, false) }

//verif:model flag.VisitAll
func VerifVisitAll(fn func(*flag.Flag)) { visit(nil, fn, true) }

// visit goes by name, as the real one does.
func visit(fs *flag.FlagSet, fn func(*flag.Flag), all bool) {
	if fs == flag.CommandLine {
		fs = nil
	}
	last := ""
	for {
		var next *slot
		for _, s := range slots {
			if s.fs == fs && (s.seen || all) && s.name > last && (next == nil || s.name < next.name) {
				next = s
			}
		}
		if next == nil {
			return
		}
		last = next.name
		fn(&flag.Flag{Name: next.name, DefValue: next.def})
	}
}

//verif:model flag.NFlag
func VerifNFlag() int { return VerifSetNFlag(nil) }

//verif:model (*flag.FlagSet).NFlag
func VerifSetNFlag(fs *flag.FlagSet) int {
	n := 0
	visit(fs, func(*flag.Flag) { n++ }, false)
	return n
}

//verif:model flag.NArg
func VerifNArg() int { return 0 }

//verif:model (*flag.FlagSet).NArg
func VerifSetNArg(fs *flag.FlagSet) int { return 0 }

//verif:model flag.Args
func VerifArgs() []string { return nil }

//verif:model (*flag.FlagSet).Args
func VerifSetArgs(fs *flag.FlagSet) []string { return nil }

//verif:model flag.Arg
func VerifArg(i int) string { return "" }

//verif:model (*flag.FlagSet).Arg
func VerifSetArg(fs *flag.FlagSet, i int) string { return "" }

//verif:model flag.PrintDefaults
func VerifPrintDefaults() {}

//verif:model (*flag.FlagSet).PrintDefaults
func VerifSetPrintDefaults(fs *flag.FlagSet) {}

//verif:model (*flag.FlagSet).SetOutput
func VerifSetOutput(fs *flag.FlagSet, w io.Writer) {}

//verif:model flag.Var
func VerifVar(value flag.Value, name, usage string) { VerifSetVar(nil, value, name, usage) }

//verif:model (*flag.FlagSet).Var
func VerifSetVar(fs *flag.FlagSet, value flag.Value, name, usage string) {
	add(fs, name, "", func(a Arg) bool { return value.Set(a.text()) == nil })
}

//verif:model flag.Func
func VerifFunc(name, usage string, fn func(string) error) { VerifSetFunc(nil, name, usage, fn) }

//verif:model (*flag.FlagSet).Func
func VerifSetFunc(fs *flag.FlagSet, name, usage string, fn func(string) error) {
	add(fs, name, "", func(a Arg) bool { return fn(a.text()) == nil })
}

//verif:model (*flag.FlagSet).StringVar
func VerifSetStringVar(fs *flag.FlagSet, p *string, name string, value string, usage string) {
	*p = value
	add(fs, name, "", func(a Arg) bool { *p = a.S; return a.Kind == 's' })
}

//verif:model (*flag.FlagSet).String
func VerifSetString(fs *flag.FlagSet, name string, value string, usage string) *string {
	p := new(string)
	VerifSetStringVar(fs, p, name, value, usage)
	return p
}

//verif:model flag.StringVar
func VerifStringVar(p *string, name string, value string, usage string) {
	VerifSetStringVar(nil, p, name, value, usage)
}

//verif:model flag.String
func VerifString(name string, value string, usage string) *string {
	return VerifSetString(nil, name, value, usage)
}

//verif:model (*flag.FlagSet).IntVar
func VerifSetIntVar(fs *flag.FlagSet, p *int, name string, value int, usage string) {
	*p = value
	add(fs, name, "", func(a Arg) bool { *p = a.I; return a.Kind == 'i' })
}

//verif:model (*flag.FlagSet).Int
func VerifSetInt(fs *flag.FlagSet, name string, value int, usage string) *int {
	p := new(int)
	VerifSetIntVar(fs, p, name, value, usage)
	return p
}

//verif:model flag.IntVar
func VerifIntVar(p *int, name string, value int, usage string) {
	VerifSetIntVar(nil, p, name, value, usage)
}

//verif:model flag.Int
func VerifInt(name string, value int, usage string) *int { return VerifSetInt(nil, name, value, usage) }

//verif:model (*flag.FlagSet).Int64Var
func VerifSetInt64Var(fs *flag.FlagSet, p *int64, name string, value int64, usage string) {
	*p = value
	add(fs, name, "", func(a Arg) bool { *p = int64(a.I); return a.Kind == 'i' })
}

//verif:model (*flag.FlagSet).Int64
func VerifSetInt64(fs *flag.FlagSet, name string, value int64, usage string) *int64 {
	p := new(int64)
	VerifSetInt64Var(fs, p, name, value, usage)
	return p
}

//verif:model flag.Int64Var
func VerifInt64Var(p *int64, name string, value int64, usage string) {
	VerifSetInt64Var(nil, p, name, value, usage)
}

//verif:model flag.Int64
func VerifInt64(name string, value int64, usage string) *int64 {
	return VerifSetInt64(nil, name, value, usage)
}

//verif:model (*flag.FlagSet).UintVar
func VerifSetUintVar(fs *flag.FlagSet, p *uint, name string, value uint, usage string) {
	*p = value
	add(fs, name, "", func(a Arg) bool { *p = uint(a.I); return a.Kind == 'i' && a.I >= 0 })
}

//verif:model (*flag.FlagSet).Uint
func VerifSetUint(fs *flag.FlagSet, name string, value uint, usage string) *uint {
	p := new(uint)
	VerifSetUintVar(fs, p, name, value, usage)
	return p
}

//verif:model flag.UintVar
func VerifUintVar(p *uint, name string, value uint, usage string) {
	VerifSetUintVar(nil, p, name, value, usage)
}

//verif:model flag.Uint
func VerifUint(name string, value uint, usage string) *uint {
	return VerifSetUint(nil, name, value, usage)
}

//verif:model (*flag.FlagSet).Uint64Var
func VerifSetUint64Var(fs *flag.FlagSet, p *uint64, name string, value uint64, usage string) {
	*p = value
	add(fs, name, "", func(a Arg) bool { *p = uint64(a.I); return a.Kind == 'i' && a.I >= 0 })
}

//verif:model (*flag.FlagSet).Uint64
func VerifSetUint64(fs *flag.FlagSet, name string, value uint64, usage string) *uint64 {
	p := new(uint64)
	VerifSetUint64Var(fs, p, name, value, usage)
	return p
}

//verif:model flag.Uint64Var
func VerifUint64Var(p *uint64, name string, value uint64, usage string) {
	VerifSetUint64Var(nil, p, name, value, usage)
}

//verif:model flag.Uint64
func VerifUint64(name string, value uint64, usage string) *uint64 {
	return VerifSetUint64(nil, name, value, usage)
}

//verif:model (*flag.FlagSet).Float64Var
func VerifSetFloat64Var(fs *flag.FlagSet, p *float64, name string, value float64, usage string) {
	*p = value
	add(fs, name, "", func(a Arg) bool {
		if a.Kind == 'i' {
			*p = float64(a.I)
		} else {
			*p = a.F
		}
		return a.Kind == 'i' || a.Kind == 'f'
	})
}

//verif:model (*flag.FlagSet).Float64
func VerifSetFloat64(fs *flag.FlagSet, name string, value float64, usage string) *float64 {
	p := new(float64)
	VerifSetFloat64Var(fs, p, name, value, usage)
	return p
}

//verif:model flag.Float64Var
func VerifFloat64Var(p *float64, name string, value float64, usage string) {
	VerifSetFloat64Var(nil, p, name, value, usage)
}

//verif:model flag.Float64
func VerifFloat64(name string, value float64, usage string) *float64 {
	return VerifSetFloat64(nil, name, value, usage)
}

//verif:model (*flag.FlagSet).DurationVar
func VerifSetDurationVar(fs *flag.FlagSet, p *time.Duration, name string, value time.Duration, usage string) {
	*p = value
	add(fs, name, "", func(a Arg) bool { return false })
}

//verif:model (*flag.FlagSet).Duration
func VerifSetDuration(fs *flag.FlagSet, name string, value time.Duration, usage string) *time.Duration {
	p := new(time.Duration)
	VerifSetDurationVar(fs, p, name, value, usage)
	return p
}

//verif:model flag.DurationVar
func VerifDurationVar(p *time.Duration, name string, value time.Duration, usage string) {
	VerifSetDurationVar(nil, p, name, value, usage)
}

//verif:model flag.Duration
func VerifDuration(name string, value time.Duration, usage string) *time.Duration {
	return VerifSetDuration(nil, name, value, usage)
}

//verif:model (*flag.FlagSet).BoolVar
func VerifSetBoolVar(fs *flag.FlagSet, p *bool, name string, value bool, usage string) {
	*p = value
	add(fs, name, "", func(a Arg) bool { return false })
}

//verif:model (*flag.FlagSet).Bool
func VerifSetBool(fs *flag.FlagSet, name string, value bool, usage string) *bool {
	p := new(bool)
	VerifSetBoolVar(fs, p, name, value, usage)
	return p
}

//verif:model flag.BoolVar
func VerifBoolVar(p *bool, name string, value bool, usage string) {
	VerifSetBoolVar(nil, p, name, value, usage)
}

//verif:model flag.Bool
func VerifBool(name string, value bool, usage string) *bool {
	return VerifSetBool(nil, name, value, usage)
}

//verif:redirect os.Exit
func VerifExit(code int) { panic(Exit{code}) }

//verif:redirect log.Fatal
func VerifFatal(v ...interface{}) { panic(Exit{1}) }

//verif:redirect log.Fatalf
func VerifFatalf(format string, v ...interface{}) { panic(Exit{1}) }

//verif:redirect log.Fatalln
func VerifFatalln(v ...interface{}) { panic(Exit{1}) }
