package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Data races: with rt.Race(true) the accesses that the repository's code makes (itself or through libraries) are
// ordered by the happens-before relation of the synchronisation that it performs. Two accesses to a cell by different
// goroutines, one of them a write, that are not ordered make a candidate; the race detector of the Go tool chain decides
// natively.

type raceKey struct{ obj, off int }

type raceAcc struct {
	th, clk int
	where   *ssa.Function
}

type raceCell struct {
	w     raceAcc
	wrote bool
	reads []raceAcc
}

type raceState struct {
	vc    [][]int // per thread
	sync  map[string][]int
	cells map[raceKey]raceCell
	seen  map[string]bool
}

func (r *raceState) clone() *raceState {
	if r == nil {
		return nil
	}
	n := &raceState{sync: map[string][]int{}, cells: map[raceKey]raceCell{}, seen: r.seen}
	for _, v := range r.vc {
		n.vc = append(n.vc, append([]int(nil), v...))
	}
	for k, v := range r.sync {
		n.sync[k] = v
	}
	for k, v := range r.cells {
		n.cells[k] = v
	}
	return n
}

func (r *raceState) clock(t int) []int {
	for len(r.vc) <= t {
		r.vc = append(r.vc, nil)
	}
	v := r.vc[t]
	for len(v) <= t {
		v = append(v, 0)
	}
	if v[t] == 0 {
		v[t] = 1
	}
	r.vc[t] = v
	return v
}

func joinVC(a, b []int) []int {
	r := append([]int(nil), a...)
	for len(r) < len(b) {
		r = append(r, 0)
	}
	for i, v := range b {
		if v > r[i] {
			r[i] = v
		}
	}
	return r
}

// attribution of a function: 1 repository, 2 harness, 3 library
func (x *Exec) attr(fn *ssa.Function) int {
	if v, ok := x.attrs[fn]; ok {
		return v
	}
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	p := ""
	if f.Pkg != nil {
		p = f.Pkg.Pkg.Path()
	}
	r := 3
	if strings.HasPrefix(p, x.modPath) {
		r = 1
		if strings.Contains(p, "/internal/verif") {
			r = 2
		}
	}
	x.attrs[fn] = r
	return r
}

// repoFrame is the function of the repository on whose behalf the thread acts, nil if it is not one.
func (x *Exec) repoFrame(th *Thread) *ssa.Function {
	for i := len(th.frames) - 1; i >= 0; i-- {
		switch fn := th.frames[i].fn; x.attr(fn) {
		case 1:
			return fn
		case 2:
			return nil
		}
	}
	return nil
}

func (x *Exec) access(obj, off, n int, write bool) {
	s := x.st
	r := s.race
	if r == nil || obj == 0 {
		return
	}
	th := s.threads[s.cur]
	fn := x.repoFrame(th)
	if fn == nil {
		return
	}
	x.accessBy(fn, obj, off, n, write)
}

// handed: what a stand-in does with the bytes that the repository's code gave it.
func (x *Exec) handed(sl Slice, write bool) {
	s := x.st
	if s.race == nil || sl.obj == 0 || !sl.len.IsConst() {
		return
	}
	th := s.threads[s.cur]
	for i := len(th.frames) - 1; i >= 0; i-- {
		if fn := th.frames[i].fn; x.attr(fn) == 1 {
			x.accessBy(fn, sl.obj, sl.off, int(sl.len.c), write)
			return
		}
	}
}

func (x *Exec) accessBy(fn *ssa.Function, obj, off, n int, write bool) {
	s := x.st
	r := s.race
	th := s.threads[s.cur]
	vc := r.clock(th.id)
	me := raceAcc{th.id, vc[th.id], fn}
	for i := 0; i < n; i++ {
		k := raceKey{obj, off + i}
		c := r.cells[k]
		if c.wrote && x.unordered(vc, c.w) {
			x.raced(c.w, me, true, write)
		}
		if write {
			for _, a := range c.reads {
				if x.unordered(vc, a) {
					x.raced(a, me, false, true)
				}
			}
			c = raceCell{w: me, wrote: true}
		} else {
			rs := make([]raceAcc, 0, len(c.reads)+1)
			for _, a := range c.reads {
				if a.th != th.id {
					rs = append(rs, a)
				}
			}
			c.reads = append(rs, me)
		}
		r.cells[k] = c
	}
}

func (x *Exec) unordered(vc []int, a raceAcc) bool {
	me := x.st.threads[x.st.cur].id
	return a.th != me && (a.th >= len(vc) || vc[a.th] < a.clk)
}

func (x *Exec) raced(a, b raceAcc, aw, bw bool) {
	what := func(w bool) string {
		if w {
			return "writes"
		}
		return "reads"
	}
	msg := fmt.Sprintf("data race: %s %s what %s %s", b.where, what(bw), a.where, what(aw))
	if x.st.race.seen[msg] {
		return
	}
	x.st.race.seen[msg] = true
	x.candidate("race", msg, x.st.pc, nil)
}

// syncEdge: the thread synchronises on key; taken in both directions, which can only hide races.
func (x *Exec) syncEdge(th *Thread, key string) {
	r := x.st.race
	if r == nil || x.repoFrame(th) == nil {
		return
	}
	vc := r.clock(th.id)
	vc = joinVC(vc, r.sync[key])
	r.sync[key] = append([]int(nil), vc...)
	vc = append([]int(nil), vc...)
	vc[th.id]++
	r.vc[th.id] = vc
}

// goEdge: the new thread starts after what its creator did.
func (x *Exec) goEdge(th, nt *Thread) {
	r := x.st.race
	if r == nil {
		return
	}
	vc := r.clock(th.id)
	r.clock(nt.id)
	r.vc[nt.id] = joinVC(r.vc[nt.id], vc)
	vc = append([]int(nil), vc...)
	vc[th.id]++
	r.vc[th.id] = vc
}

func (x *Exec) accessSlice(s Slice, n, es int, write bool) {
	if x.st.race != nil && s.obj != 0 {
		x.access(s.obj, s.off, n*es, write)
	}
}
