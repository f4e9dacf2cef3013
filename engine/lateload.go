package main

import (
	"go/ast"
	"go/token"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// lateLoads makes "return v, f(&v)" read v after the call, as the compiler does: the language leaves
// the order open, and go/ssa reads v first.
func lateLoads(prog *ssa.Program) {
	for fn := range ssautil.AllFunctions(prog) {
		syn := fn.Syntax()
		if syn == nil {
			continue
		}
		at := map[token.Pos]*ast.ReturnStmt{}
		ast.Inspect(syn, func(n ast.Node) bool {
			if l, ok := n.(*ast.FuncLit); ok && ast.Node(l) != syn {
				return false
			}
			if r, ok := n.(*ast.ReturnStmt); ok && len(r.Results) > 1 {
				at[r.Return] = r
			}
			return true
		})
		if len(at) == 0 {
			continue
		}
		for _, b := range fn.Blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
			if !ok || at[ret.Pos()] == nil || len(at[ret.Pos()].Results) != len(ret.Results) {
				continue
			}
			for k, e := range at[ret.Pos()].Results {
				id, ok := e.(*ast.Ident)
				if !ok {
					continue
				}
				ld, ok := ret.Results[k].(*ssa.UnOp)
				if !ok || ld.Op != token.MUL || ld.Block() != b || len(*ld.Referrers()) != 1 {
					continue
				}
				switch a := ld.X.(type) {
				case *ssa.Alloc:
					if a.Comment != id.Name {
						continue
					}
				case *ssa.Global:
				case *ssa.FreeVar:
				default:
					continue
				}
				// after the last call, before the return (and before the deferred calls run)
				from, to := -1, -1
				for j, in := range b.Instrs {
					if in == ssa.Instruction(ld) {
						from = j
					}
					if _, ok := in.(*ssa.Call); ok && from >= 0 {
						to = j
					}
				}
				if from < 0 || to < 0 {
					continue
				}
				copy(b.Instrs[from:to], b.Instrs[from+1:to+1])
				b.Instrs[to] = ld
			}
		}
	}
}
