package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type JobSpec struct {
	Group    string           `json:"group"`
	Harness  string           `json:"harness"`
	Params   map[string][]int `json:"params"`
	Tier     string           `json:"tier"`   // "" both, "quick", "thorough"
	Covers   []string         `json:"covers"` // reachability points that must be hit
	MaxPaths int              `json:"maxpaths"`
	MaxSteps int              `json:"maxsteps"`
	MaxConcr int              `json:"maxconcr"`
	Secs     int              `json:"secs"`
	NoNative bool             `json:"nonative"`
	Wit      int              `json:"wit"`
	TO       int              `json:"solver_ms"`
}

type CheckSpec struct {
	Jobs        []JobSpec `json:"jobs"`
	Bounds      []string  `json:"bounds"`
	Assumptions []string  `json:"assumptions"`
}

type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Match    string `json:"match"`  // assertion text identifying the failing history
	Harness  string `json:"harness"`
	What     string `json:"what"`
	Commit   string `json:"commit"`
	Line     string `json:"line"`
}

type JobRun struct {
	spec   JobSpec
	params map[string]int64
	x      *Exec
	wall   time.Duration
	err    string
}

func (j *JobRun) name() string {
	s := j.spec.Harness
	var ks []string
	for k := range j.params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s += fmt.Sprintf(" %s=%d", k, j.params[k])
	}
	return s
}

func expand(spec JobSpec) []map[string]int64 {
	out := []map[string]int64{{}}
	var ks []string
	for k := range spec.Params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var n []map[string]int64
		for _, m := range out {
			for _, v := range spec.Params[k] {
				c := map[string]int64{}
				for a, b := range m {
					c[a] = b
				}
				c[k] = int64(v)
				n = append(n, c)
			}
		}
		out = n
	}
	return out
}

func or(a, b int) int {
	if a != 0 {
		return a
	}
	return b
}

func runJob(p *Program, j *JobRun, deadline time.Time, seed uint64) {
	start := time.Now()
	defer func() { j.wall = time.Since(start) }()
	fn := p.pkgs[j.spec.Group].Func(j.spec.Harness)
	if fn == nil {
		j.err = "no harness " + j.spec.Harness
		return
	}
	dl := deadline
	if j.spec.Secs > 0 {
		if d := start.Add(time.Duration(j.spec.Secs) * time.Second); d.Before(dl) {
			dl = d
		}
	}
	lim := Limits{MaxPaths: or(j.spec.MaxPaths, 200000), MaxSteps: or(j.spec.MaxSteps, 3000000), MaxConcr: or(j.spec.MaxConcr, 400), Deadline: dl}
	x := NewExec(p.prog, j.params, lim, time.Duration(or(j.spec.TO, 20000))*time.Millisecond)
	x.rtPath = modPath + "/internal/verifrt"
	x.modPath = modPath
	x.redirects = map[string]*ssa.Function{}
	for k, f := range p.redirects {
		if f != nil {
			x.redirects[k] = f
		}
	}
	x.maxWit = or(j.spec.Wit, 4)
	x.rnd = seed*7919 + 12345
	j.x = x
	defer func() {
		if r := recover(); r != nil {
			j.err = fmt.Sprintf("engine failure: %v", r)
			if os.Getenv("VDEBUG") != "" {
				debug.PrintStack()
			}
			x.sol.Close()
		}
	}()
	if cp := p.prog.ImportedPackage(modPath + "/internal/verifh/common"); cp != nil {
		x.initPkg(cp)
	}
	x.RunHarness(fn)
}

func main() {
	debug.SetGCPercent(200)
	if f := os.Getenv("VPROF"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: verify check ID | dev GROUP HARNESS [k=v...]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check(os.Args[2]))
	case "dev":
		rc := dev(os.Args[2:])
		pprof.StopCPUProfile()
		os.Exit(rc)
	}
	os.Exit(2)
}

func dev(args []string) int {
	group, harness := args[0], args[1]
	t0 := time.Now()
	p, err := loadProgram([]string{group})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("loaded in %.1fs\n", time.Since(t0).Seconds())
	j := &JobRun{spec: JobSpec{Group: group, Harness: harness, Wit: 6}, params: map[string]int64{}}
	secs := 600
	native := true
	for _, a := range args[2:] {
		kv := strings.SplitN(a, "=", 2)
		if kv[0] == "native" {
			native = kv[1] == "1"
			continue
		}
		v, _ := strconv.ParseInt(kv[1], 10, 64)
		switch kv[0] {
		case "secs":
			secs = int(v)
		case "maxsteps":
			j.spec.MaxSteps = int(v)
		case "maxpaths":
			j.spec.MaxPaths = int(v)
		case "wit":
			j.spec.Wit = int(v)
		default:
			j.params[kv[0]] = v
		}
	}
	runJob(p, j, time.Now().Add(time.Duration(secs)*time.Second), 1)
	if j.err != "" {
		fmt.Println("ERR", j.err)
	}
	x := j.x
	fmt.Printf("%s: paths %d %v steps %d merges %d asserts %d (%d queried) queries %d %v solver %.2fs max %.2fs cache %d fpq %d errors %d unknown %d wall %.2fs terms %d %s\n", j.name(), x.Paths, x.PathKinds, x.Steps, x.Merges,
		x.Asserts, x.AssertQ, x.sol.Queries, x.sol.ByRes, x.sol.Time.Seconds(), x.sol.MaxTime.Seconds(), x.sol.CacheH, x.sol.FPq, x.sol.Errors, x.Unknowns, j.wall.Seconds(), x.c.n, x.Incomplete)
	fmt.Println("covers", x.Covers, "notes", x.NotesSeen)
	for _, k := range sortedKeys(x.Unsup) {
		fmt.Println("UNSUP", x.Unsup[k], k)
	}
	if os.Getenv("VFORKS") != "" {
		for _, k := range sortedKeys(x.ForkAt) {
			fmt.Println("FORK", x.ForkAt[k], k)
		}
	}
	for _, c := range x.Cands {
		fmt.Printf("CAND %s: %s @ %s\n   %s\n", c.Kind, c.Msg, c.Where, inputStr(c.Inputs))
	}
	if !native {
		return 0
	}
	work, _ := os.MkdirTemp("", "verif")
	defer os.RemoveAll(work)
	n, err := buildNative(p, group, work)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	r := replayJob(n, j, time.Now().Add(120*time.Second))
	fmt.Printf("native: witnesses ok %d mismatched %d; candidates confirmed %d of %d; others run %d failing %d\n", r.witOK, len(r.witBad), len(r.confirmed), len(x.Cands), r.otherRun, len(r.otherBad))
	for _, s := range r.witBad {
		fmt.Println("WITBAD", s)
	}
	for _, c := range r.confirmed {
		fmt.Println("CONFIRMED", c.Kind, c.Msg, "::", c.Native)
	}
	for _, c := range r.unconfirmed {
		fmt.Println("UNCONFIRMED", c.Kind, c.Msg, "::", c.Native)
	}
	for _, c := range r.otherBad {
		fmt.Println("OTHERBAD", c.Kind, c.Msg, "::", c.Native)
	}
	return 0
}

func inputStr(m map[string]uint64) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var p []string
	for _, k := range ks {
		p = append(p, fmt.Sprintf("%s=%x", k, m[k]))
	}
	s := strings.Join(p, " ")
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

type replayRes struct {
	witOK       int
	witBad      []string
	confirmed   []Candidate
	unconfirmed []Candidate
	otherRun    int
	otherBad    []Candidate
}

func nativeBad(r NResult) string {
	switch {
	case len(r.Fails) > 0:
		return strings.Join(r.Fails, "; ")
	case r.Panic != "":
		return "panic: " + r.Panic
	case r.Crash != "":
		return r.Crash
	case r.Timeout:
		return "no progress (timeout)"
	}
	return ""
}

func replayJob(n *Native, j *JobRun, deadline time.Time) replayRes {
	var rr replayRes
	x := j.x
	var cases []NCase
	type ref struct{ kind, i int }
	var refs []ref
	add := func(k, i int, in map[string]uint64) {
		cases = append(cases, NCase{Harness: j.spec.Harness, Inputs: in, Params: j.params})
		refs = append(refs, ref{k, i})
	}
	for i, c := range x.Cands {
		if c.Kind == "race" {
			c.Native = "not reported by the race detector"
			fns, err := n.race.races(NCase{Harness: j.spec.Harness, Inputs: c.Inputs, Params: j.params})
			if err != nil {
				c.Native = "no race detector: " + err.Error()
			}
			if len(fns) > 0 {
				c.Native = "the race detector reports " + strings.Join(fns, "; ")
				c.Confirmed = true
				rr.confirmed = append(rr.confirmed, c)
				continue
			}
			rr.unconfirmed = append(rr.unconfirmed, c)
			continue
		}
		add(0, i, c.Inputs)
	}
	for i, w := range x.Witnesses {
		add(1, i, w.Inputs)
	}
	for i, c := range x.unsupIn {
		add(2, i, c.Inputs)
	}
	res := n.runCases(cases, deadline)
	if x.usedPool {
		// what a pool hands out depends on the processor: try the candidates again on one
		var again []NCase
		var idx []int
		for k, rf := range refs {
			if r, ok := res[k]; rf.kind == 0 && (!ok || nativeBad(r) == "") {
				again = append(again, cases[k])
				idx = append(idx, k)
			}
		}
		if len(again) > 0 {
			one := *n
			one.env = append(append([]string(nil), n.env...), "GOMAXPROCS=1")
			for k, r := range one.runCases(again, deadline) {
				if nativeBad(r) != "" {
					res[idx[k]] = r
				}
			}
		}
	}
	for k, rf := range refs {
		r, ok := res[k]
		bad := nativeBad(r)
		switch rf.kind {
		case 0:
			c := x.Cands[rf.i]
			c.Native = bad
			if ok && bad != "" {
				c.Confirmed = true
				rr.confirmed = append(rr.confirmed, c)
			} else {
				if r.Discard != "" {
					c.Native = "discarded: " + r.Discard
				} else if !ok {
					c.Native = "not run"
				}
				rr.unconfirmed = append(rr.unconfirmed, c)
			}
		case 1:
			w := x.Witnesses[rf.i]
			if !ok {
				continue
			}
			if bad != "" {
				rr.otherBad = append(rr.otherBad, Candidate{Kind: "witness", Msg: strings.Join(append(r.Fails, r.Panic), "; "), Inputs: w.Inputs, Native: bad, Confirmed: true})
				rr.witBad = append(rr.witBad, "native failure: "+bad+" :: "+inputStr(w.Inputs))
				continue
			}
			if r.Discard != "" {
				rr.witBad = append(rr.witBad, "discarded natively: "+r.Discard)
				continue
			}
			if strings.Join(r.Emits, "\n") != strings.Join(w.Emits, "\n") {
				rr.witBad = append(rr.witBad, fmt.Sprintf("predicted %v, native %v :: %s", w.Emits, r.Emits, inputStr(w.Inputs)))
				continue
			}
			rr.witOK++
		case 2:
			c := x.unsupIn[rf.i]
			if !ok {
				continue
			}
			rr.otherRun++
			if bad != "" && r.Discard == "" {
				c.Native = bad
				c.Confirmed = true
				rr.otherBad = append(rr.otherBad, c)
			}
		}
	}
	return rr
}

func check(id string) int {
	t0 := time.Now()
	tier := envOr("VERIF_TIER", "quick")
	seed, _ := strconv.ParseUint(envOr("VERIF_SEED", "1"), 10, 64)
	var specs map[string]CheckSpec
	b, err := os.ReadFile(filepath.Join(verifDir, "checks.json"))
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if err := json.Unmarshal(b, &specs); err != nil {
		fmt.Println("checks.json:", err)
		return 2
	}
	spec, ok := specs[id]
	if !ok {
		fmt.Println("unknown property", id)
		return 2
	}
	var findings []Finding
	if b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json")); err == nil {
		if err := json.Unmarshal(b, &findings); err != nil {
			fmt.Println("known_findings.json:", err)
			return 2
		}
	}
	budget := 240 * time.Second
	if tier == "thorough" {
		budget = 3 * time.Hour
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_BUDGET")); err == nil {
		budget = time.Duration(v) * time.Second
	}
	deadline := t0.Add(budget)

	var jobs []*JobRun
	groups := []string{}
	gseen := map[string]bool{}
	for _, js := range spec.Jobs {
		if js.Tier != "" && js.Tier != tier {
			continue
		}
		for _, pm := range expand(js) {
			jobs = append(jobs, &JobRun{spec: js, params: pm})
		}
		if !gseen[js.Group] {
			gseen[js.Group] = true
			groups = append(groups, js.Group)
		}
	}
	work, err := os.MkdirTemp("", "verif")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(work)

	progs := map[string]*Program{}
	natives := map[string]*Native{}
	nerr := map[string]error{}
	for _, g := range groups {
		p, err := loadProgram([]string{g})
		if err != nil {
			fmt.Println(err)
			return 2
		}
		progs[g] = p
	}
	loadT := time.Since(t0)
	var nwg sync.WaitGroup
	var nmu sync.Mutex
	for _, g := range groups {
		nwg.Add(1)
		go func(g string) {
			defer nwg.Done()
			n, err := buildNative(progs[g], g, work)
			nmu.Lock()
			natives[g], nerr[g] = n, err
			nmu.Unlock()
		}(g)
	}
	ch := make(chan *JobRun)
	var wg sync.WaitGroup
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range ch {
				runJob(progs[j.spec.Group], j, deadline, seed)
			}
		}()
	}
	for _, j := range jobs {
		ch <- j
	}
	close(ch)
	wg.Wait()
	nwg.Wait()
	for g, e := range nerr {
		if e != nil {
			fmt.Println(g, e)
			return 2
		}
	}
	exploreT := time.Since(t0)

	// native replay
	type repOut struct {
		j *JobRun
		r replayRes
	}
	outs := make([]repOut, len(jobs))
	rch := make(chan int)
	var rwg sync.WaitGroup
	ndl := time.Now().Add(240 * time.Second)
	for w := 0; w < 6; w++ {
		rwg.Add(1)
		go func() {
			defer rwg.Done()
			for i := range rch {
				j := jobs[i]
				outs[i].j = j
				if j.x != nil && !j.spec.NoNative {
					outs[i].r = replayJob(natives[j.spec.Group], j, ndl)
				}
			}
		}()
	}
	for i := range jobs {
		rch <- i
	}
	close(rch)
	rwg.Wait()

	// report
	ev := map[string]interface{}{}
	var states, trans, traces, asserts, aq, queries, fpq, cacheH, unk, solErr, covMissing int
	var solT, solMax float64
	kinds := map[string]int{}
	byRes := map[string]int{}
	funcs := map[string]bool{}
	reduced := map[string]int{}
	notes := map[string]int{}
	var jobRows []map[string]interface{}
	var samples []interface{}
	var viol []Candidate
	var violJob []*JobRun
	var unconf []string
	var mism []string
	completed := 0
	for _, o := range outs {
		j := o.j
		if j.err != "" {
			reduced[j.name()+": "+j.err]++
			fmt.Println("engine:", j.name(), j.err)
		}
		if j.x == nil {
			continue
		}
		x := j.x
		states += x.Paths
		trans += x.Steps
		traces += o.r.witOK
		asserts += x.Asserts
		aq += x.AssertQ
		queries += x.sol.Queries
		fpq += x.sol.FPq
		cacheH += x.sol.CacheH
		unk += x.Unknowns
		solErr += x.sol.Errors
		solT += x.sol.Time.Seconds()
		if x.sol.MaxTime.Seconds() > solMax {
			solMax = x.sol.MaxTime.Seconds()
		}
		for k, v := range x.PathKinds {
			kinds[k] += v
		}
		completed += x.PathKinds["ok"]
		for k, v := range x.sol.ByRes {
			byRes[fmt.Sprint(k)] += v
		}
		for f := range x.FuncsSeen {
			s := f.String()
			if strings.Contains(s, modPath) && !strings.Contains(s, "internal/verif") {
				funcs[strings.ReplaceAll(s, modPath+"/", "")] = true
			}
		}
		for k, v := range x.Unsup {
			reduced[j.spec.Harness+": "+k] += v
		}
		for k, v := range x.NotesSeen {
			notes[k] += v
		}
		if x.Incomplete != "" {
			reduced[j.name()+": "+x.Incomplete]++
		}
		var miss []string
		for _, c := range j.spec.Covers {
			if x.Covers[c] == 0 {
				miss = append(miss, c)
			}
		}
		covMissing += len(miss)
		row := map[string]interface{}{"job": j.name(), "paths": x.Paths, "kinds": x.PathKinds, "steps": x.Steps, "assertions": x.Asserts, "queries": x.sol.Queries, "solver_s": round3(x.sol.Time.Seconds()), "wall_s": round3(j.wall.Seconds()), "covers": x.Covers, "witnesses_matched": o.r.witOK}
		if len(miss) > 0 {
			row["covers_missing"] = miss
			reduced[j.name()+": not reached: "+strings.Join(miss, ", ")]++
		}
		jobRows = append(jobRows, row)
		if len(samples) < 6 && len(x.Witnesses) > 0 {
			w := x.Witnesses[0]
			samples = append(samples, map[string]interface{}{"job": j.name(), "inputs": inputStr(w.Inputs), "observed": w.Emits})
		}
		for _, c := range append(append([]Candidate(nil), o.r.confirmed...), o.r.otherBad...) {
			viol = append(viol, c)
			violJob = append(violJob, j)
		}
		for _, c := range o.r.unconfirmed {
			unconf = append(unconf, j.name()+": "+c.Kind+" "+c.Msg+" ("+c.Native+")")
		}
		for _, m := range o.r.witBad {
			mism = append(mism, j.name()+": "+m)
		}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)

	nviol := 0
	knownSeen := map[string]bool{}
	rdir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(rdir, 0755)
	printed := map[string]bool{}
	for i, c := range viol {
		j := violJob[i]
		if f := matchFinding(findings, id, j, c); f != nil {
			knownSeen[f.What] = true
			continue
		}
		nviol++
		key := c.Kind + c.Msg
		if printed[key] {
			continue
		}
		printed[key] = true
		rp := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", id, len(printed)))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "harness": j.spec.Harness, "group": j.spec.Group, "params": j.params, "kind": c.Kind, "assertion": c.Msg, "where": c.Where, "inputs": c.Inputs, "native": c.Native,
			"how": "verify replay: the inputs are fed to the harness compiled against the real code"}, "", " ")
		os.WriteFile(rp, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		fmt.Printf("  %s: %s\n  native run: %s\n", j.name(), c.Msg, firstLine(c.Native))
	}
	for _, f := range findings {
		if f.Property == id && f.Status == "known" && knownSeen[f.What] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
		}
	}
	ev["property"] = id
	ev["tier"] = tier
	ev["seed"] = seed
	ev["level"] = "model_checking"
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": traces, "samples": samples,
		"path_outcomes": kinds, "assertions_reached": asserts, "assertions_sent_to_solver": aq, "queries": queries, "queries_by_result": byRes,
		"queries_float_relaxation": fpq, "query_cache_hits": cacheH, "solver_seconds": round3(solT), "solver_max_seconds": round3(solMax), "solver_errors": solErr, "unknown_results": unk,
		"functions_encoded": fl, "bounds": spec.Bounds, "reduced_bound": reduced, "notes": notes, "jobs": jobRows, "unconfirmed_candidates": unconf, "witness_mismatches": mism,
		"load_seconds": round3(loadT.Seconds()), "explore_seconds": round3(exploreT.Seconds()),
		"explanation": "states = execution paths decided symbolically, transitions = SSA instructions executed, traces = solver models of completed paths re-run on the compiled code with identical observable values",
		"exhaustive":  len(reduced) == 0,
	}
	ev["coverage"] = cov
	ev["assumptions"] = spec.Assumptions
	ev["wall_s"] = round3(time.Since(t0).Seconds())
	ev["violations"] = nviol
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", id+".json"), eb, 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Printf("%s %s: %d jobs, %d paths %v, %d instructions, %d assertions (%d queried), %d queries %.1fs solver, %d traces validated, wall %.1fs (load %.1f explore %.1f)\n", id, tier, len(jobs), states, kinds, trans, asserts, aq, queries, solT, traces, time.Since(t0).Seconds(), loadT.Seconds(), exploreT.Seconds())
	for _, k := range sortedKeys(reduced) {
		fmt.Printf("  reduced bound (%d): %s\n", reduced[k], k)
	}
	for _, m := range mism {
		fmt.Println("  witness mismatch:", m)
	}
	for _, m := range unconf {
		fmt.Println("  unconfirmed:", m)
	}
	if nviol > 0 {
		return 1
	}
	if completed == 0 {
		fmt.Println("nothing was decided")
		return 2
	}
	return 0
}

func matchFinding(fs []Finding, id string, j *JobRun, c Candidate) *Finding {
	for i := range fs {
		f := &fs[i]
		if f.Property != id || f.Status != "known" || (f.Harness != "" && f.Harness != j.spec.Harness) {
			continue
		}
		// every natively failing assertion of this run must be the listed one
		if c.Native == "" {
			continue
		}
		all := true
		for _, m := range strings.Split(c.Native, "; ") {
			if m != f.Match {
				all = false
			}
		}
		if all {
			return f
		}
	}
	return nil
}

func round3(f float64) float64 { return float64(int64(f*1000+0.5)) / 1000 }
