package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

type NCase struct {
	ID      int
	Harness string
	Inputs  map[string]uint64
	Params  map[string]int64
}

type NResult struct {
	ID      int
	Start   bool
	Panic   string
	Fails   []string
	Emits   []string
	Covers  []string
	Discard string
	Timeout bool
	Crash   string
	Missing bool
}

// Native is a compiled harness test binary.
type Native struct {
	bin  string
	dir  string
	env  []string
	race *racer
}

// buildNative compiles the harness group against the real code.
func buildNative(p *Program, group, work string) (*Native, error) {
	n, err := buildTest(p, group, work, false)
	if n != nil {
		n.race = &racer{build: func() (*Native, error) { return buildTest(p, group, work, true) }}
	}
	return n, err
}

func buildTest(p *Program, group, work string, race bool) (*Native, error) {
	if race {
		work = filepath.Join(work, "race")
		os.MkdirAll(work, 0755)
	}
	files, err := overlayFiles([]string{group})
	if err != nil {
		return nil, err
	}
	rw, regs, imps, err := nativeRewrites(p, group, work)
	if err != nil {
		return nil, err
	}
	for v, r := range rw {
		files[v] = r
	}
	gen := filepath.Join(work, "zz_verif_gen_"+group+"_test.go")
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\t%q\n\t%q\n%s)\n\nfunc TestVerifReplay(t *testing.T) {\n\t%s\n\treplay.Main(map[string]func(){\n", p.pkgName[group], modPath+"/internal/verifrt", modPath+"/internal/verifrt/replay", importLines(imps), strings.Join(append([]string{"_ = verifrt.Hooks"}, regs...), "\n\t"))
	for _, n := range p.names[group] {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", n, n)
	}
	sb.WriteString("\t})\n}\n")
	if err := os.WriteFile(gen, []byte(sb.String()), 0644); err != nil {
		return nil, err
	}
	files[filepath.Join(repoDir, harnessDir(group), "zz_verif_gen_test.go")] = gen
	// existing tests of an in-package group would only slow the build down
	if strings.HasPrefix(group, "at_") {
		for _, f := range glob(filepath.Join(repoDir, harnessDir(group), "*_test.go")) {
			if _, ours := files[f]; !ours {
				files[f] = ""
			}
		}
	}
	ovf := filepath.Join(work, "overlay_"+group+".json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": files})
	if err := os.WriteFile(ovf, b, 0644); err != nil {
		return nil, err
	}
	bin := filepath.Join(work, "native_"+group+".test")
	args := []string{"test", "-c", "-vet=off", "-overlay", ovf, "-o", bin}
	if mf := modFile(group, work); mf != "" {
		args = append(args, "-modfile", mf)
	}
	cgo := "CGO_ENABLED=0"
	if race {
		args = append(args, "-race")
		cgo = "CGO_ENABLED=1"
	}
	args = append(args, "./"+harnessDir(group))
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), cgo)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return nil, fmt.Errorf("native build of %s: %v\n%s", group, err, out)
	}
	return &Native{bin: bin, dir: work}, nil
}

func importLines(paths []string) string {
	s := ""
	for _, p := range paths {
		s += fmt.Sprintf("\t%q\n", p)
	}
	return s
}

func modFile(group, work string) string { return "" }

// runCases executes the cases, restarting after crashes.
// A failing case is run twice more with longer settling times; it counts only if it fails every time.
func (n *Native) runCases(cases []NCase, deadline time.Time) map[int]NResult {
	res := n.runOnce(cases, deadline, "")
	for _, settle := range []string{"40", "150"} {
		var again []NCase
		var idx []int
		for i := range cases {
			if r, ok := res[i]; ok && nativeBad(r) != "" {
				again = append(again, cases[i])
				idx = append(idx, i)
			}
		}
		if len(again) == 0 || len(again) > 12 {
			break
		}
		r2 := n.runOnce(again, deadline, settle)
		for k, i := range idx {
			if r, ok := r2[k]; ok && nativeBad(r) == "" {
				res[i] = r
			}
		}
	}
	return res
}

func (n *Native) runOnce(cases []NCase, deadline time.Time, settle string) map[int]NResult {
	res, _ := n.runText(cases, deadline, settle)
	return res
}

func (n *Native) runText(cases []NCase, deadline time.Time, settle string) (map[int]NResult, string) {
	text := ""
	cases = append([]NCase(nil), cases...)
	res := map[int]NResult{}
	if len(cases) == 0 {
		return res, ""
	}
	tmp, err := os.MkdirTemp(n.dir, "run")
	if err != nil {
		return res, ""
	}
	defer os.RemoveAll(tmp)
	cf := filepath.Join(tmp, "cases.json")
	of := filepath.Join(tmp, "out.jsonl")
	for i := range cases {
		cases[i].ID = i
	}
	b, _ := json.Marshal(cases)
	os.WriteFile(cf, b, 0644)
	from := 0
	for from < len(cases) && time.Now().Before(deadline) {
		ctx, cancel := context.WithDeadline(context.Background(), deadline)
		cmd := exec.CommandContext(ctx, n.bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "0")
		cmd.Dir = tmp
		cmd.Env = append(os.Environ(), "VERIF_CASES="+cf, "VERIF_OUT="+of, fmt.Sprintf("VERIF_FROM=%d", from), "VERIF_TMP="+tmp)
		cmd.Env = append(cmd.Env, n.env...)
		if settle != "" {
			cmd.Env = append(cmd.Env, "VERIF_SETTLE_MS="+settle)
		}
		var ob bytes.Buffer
		cmd.Stdout = &ob
		cmd.Stderr = &ob
		cmd.Run()
		cancel()
		text += ob.String()
		started := -1
		f, err := os.Open(of)
		if err == nil {
			sc := bufio.NewScanner(f)
			sc.Buffer(make([]byte, 1<<20), 1<<28)
			for sc.Scan() {
				var r NResult
				if json.Unmarshal(sc.Bytes(), &r) != nil {
					continue
				}
				if r.Start {
					if r.ID > started {
						started = r.ID
					}
					continue
				}
				res[r.ID] = r
			}
			f.Close()
		}
		if started < 0 {
			break
		}
		if _, ok := res[started]; !ok {
			txt := ob.String()
			if i := strings.Index(txt, "panic:"); i >= 0 {
				txt = txt[i:]
			} else if i := strings.Index(txt, "fatal error:"); i >= 0 {
				txt = txt[i:]
			}
			if len(txt) > 1500 {
				txt = txt[:1500]
			}
			if !time.Now().Before(deadline) {
				break
			}
			res[started] = NResult{ID: started, Crash: "process died: " + txt}
		}
		if started < from {
			break
		}
		from = started + 1
	}
	return res, text
}

// racer is the harness binary with the race detector, built when a race is suspected.
type racer struct {
	once  sync.Once
	build func() (*Native, error)
	n     *Native
	err   error
}

// races runs a case under the race detector: the pairs of functions of the repository that it reports.
func (r *racer) races(c NCase) ([]string, error) {
	r.once.Do(func() { r.n, r.err = r.build() })
	if r.err != nil {
		return nil, r.err
	}
	r.n.env = []string{"GORACE=halt_on_error=0 exitcode=0 history_size=5"}
	var out []string
	for k := 0; k < 5 && len(out) == 0; k++ {
		res, text := r.n.runText([]NCase{c}, time.Now().Add(90*time.Second), "")
		if os.Getenv("VDEBUG") != "" {
			fmt.Println(text, res)
		}
		for _, b := range strings.Split(text, "WARNING: DATA RACE")[1:] {
			if i := strings.Index(b, "=================="); i >= 0 {
				b = b[:i]
			}
			var fns []string
			for _, sec := range strings.Split(b, "\n\n") {
				sec = strings.TrimSpace(sec)
				if !strings.Contains(sec, " by goroutine") && !strings.Contains(sec, " by main goroutine") || strings.HasPrefix(sec, "Goroutine") {
					continue
				}
				fn := ""
				for _, l := range strings.Split(sec, "\n") {
					l = strings.TrimSpace(l)
					if strings.HasPrefix(l, modPath) || strings.HasPrefix(l, "main.") {
						fn = strings.TrimSuffix(strings.TrimPrefix(l, modPath+"/"), "()")
						break
					}
				}
				fns = append(fns, fn)
			}
			if len(fns) == 2 && fns[0] != "" && fns[1] != "" && !strings.HasPrefix(fns[0], "internal/verif") && !strings.HasPrefix(fns[1], "internal/verif") {
				out = append(out, fns[0]+" and "+fns[1])
			}
		}
	}
	return out, nil
}
