// Package replay runs harness functions natively on concrete inputs.
package replay

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"strconv"
	"time"

	"github.com/ElectroUnion/egts-gate/internal/verifrt"
)

type Case struct {
	ID      int
	Harness string
	Inputs  map[string]uint64
	Params  map[string]int64
}

type Result struct {
	ID      int
	Start   bool
	Panic   string
	Fails   []string
	Emits   []string
	Covers  []string
	Discard string
	Timeout bool
}

func emit(f *os.File, r Result) {
	b, _ := json.Marshal(r)
	f.Write(append(b, '\n'))
}

// Main executes the cases listed in VERIF_CASES, starting with number VERIF_FROM.
func Main(h map[string]func()) {
	raw, err := ioutil.ReadFile(os.Getenv("VERIF_CASES"))
	if err != nil {
		return
	}
	var cases []Case
	if err := json.Unmarshal(raw, &cases); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	from, _ := strconv.Atoi(os.Getenv("VERIF_FROM"))
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	if err != nil {
		os.Exit(3)
	}
	to := 30 * time.Second
	if s, err := strconv.Atoi(os.Getenv("VERIF_CASE_TIMEOUT")); err == nil {
		to = time.Duration(s) * time.Second
	}
	if ms, err := strconv.Atoi(os.Getenv("VERIF_SETTLE_MS")); err == nil {
		verifrt.Settle = time.Duration(ms) * time.Millisecond
	}
	for _, c := range cases {
		if c.ID < from {
			continue
		}
		f := h[c.Harness]
		if f == nil {
			emit(out, Result{ID: c.ID, Discard: "no such harness"})
			continue
		}
		emit(out, Result{ID: c.ID, Start: true})
		run := &verifrt.Run{Inputs: c.Inputs, Params: c.Params}
		done := make(chan string, 1)
		go func() { done <- verifrt.Execute(run, f) }()
		select {
		case p := <-done:
			emit(out, Result{ID: c.ID, Panic: p, Fails: run.Fails, Emits: run.Emits, Covers: run.Covers, Discard: run.Discard})
		case <-time.After(to):
			emit(out, Result{ID: c.ID, Timeout: true})
			out.Close()
			os.Exit(4)
		}
	}
	out.Close()
	os.Exit(0)
}
