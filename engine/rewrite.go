package main

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"bytes"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

var rewriting sync.Mutex

// nativeRewrites writes copies of the repository files that call a redirected function, with each such
// call going through verifrt.Hooks; it returns virtual file -> copy, and the hook registrations.
func nativeRewrites(p *Program, group, work string) (map[string]string, []string, []string, error) {
	// the syntax trees are changed and restored
	rewriting.Lock()
	defer rewriting.Unlock()
	hooks := map[string]*ssa.Function{}
	for k, f := range p.redirects {
		if f != nil && !p.models[k] {
			hooks[k] = f
		}
	}
	out := map[string]string{}
	var regs []string
	imps := map[string]bool{}
	if len(hooks) == 0 {
		return out, nil, nil, nil
	}
	for _, k := range sortedKeys(hooks) {
		fn := hooks[k].Name()
		if hooks[k].Pkg != p.pkgs[group] {
			fn = hooks[k].Pkg.Pkg.Name() + "." + fn
			imps[hooks[k].Pkg.Pkg.Path()] = true
		}
		regs = append(regs, fmt.Sprintf("verifrt.Hooks[%q] = %s", k, fn))
	}
	for _, pk := range p.all {
		if !strings.HasPrefix(pk.PkgPath, modPath) || strings.Contains(pk.PkgPath, "/internal/verif") {
			continue
		}
		for i, f := range pk.Syntax {
			fn := pk.CompiledGoFiles[i]
			if _, ours := p.files[fn]; ours {
				continue
			}
			used := map[*ast.CallExpr]string{}
			ast.Inspect(f, func(n ast.Node) bool {
				c, ok := n.(*ast.CallExpr)
				if !ok {
					return true
				}
				var id *ast.Ident
				switch e := ast.Unparen(c.Fun).(type) {
				case *ast.Ident:
					id = e
				case *ast.SelectorExpr:
					id = e.Sel
				}
				if id == nil {
					return true
				}
				if fo, ok := pk.TypesInfo.Uses[id].(*types.Func); ok {
					if _, hit := hooks[fo.FullName()]; hit {
						used[c] = fo.FullName()
					}
				}
				return true
			})
			if len(used) == 0 {
				continue
			}
			imports := map[string]string{}
			for _, im := range f.Imports {
				path := strings.Trim(im.Path.Value, `"`)
				name := ""
				if im.Name != nil {
					name = im.Name.Name
				} else if q := pk.Imports[path]; q != nil {
					name = q.Name
				} else {
					name = filepath.Base(path)
				}
				imports[path] = name
			}
			extra := map[string]string{}
			qual := func(q *types.Package) string {
				if q == pk.Types {
					return ""
				}
				if n, ok := imports[q.Path()]; ok && n != "_" && n != "." {
					return n
				}
				n := fmt.Sprintf("zzverif%d", len(extra))
				if e, ok := extra[q.Path()]; ok {
					n = e
				}
				extra[q.Path()] = n
				return n
			}
			type call struct {
				fun  ast.Expr
				args []ast.Expr
			}
			was := map[*ast.CallExpr]call{}
			comments := f.Comments
			for c, full := range used {
				was[c] = call{c.Fun, c.Args}
				var id *ast.Ident
				var recv ast.Expr
				switch e := ast.Unparen(c.Fun).(type) {
				case *ast.Ident:
					id = e
				case *ast.SelectorExpr:
					id = e.Sel
					if sel := pk.TypesInfo.Selections[e]; sel != nil && sel.Kind() == types.MethodVal {
						recv = e.X
						want := sel.Obj().(*types.Func).Type().(*types.Signature).Recv().Type()
						if _, ptr := want.(*types.Pointer); ptr {
							if _, has := sel.Recv().Underlying().(*types.Pointer); !has {
								recv = &ast.UnaryExpr{Op: 17, X: recv} // token.AND
							}
						}
					}
				}
				sig := pk.TypesInfo.Uses[id].(*types.Func).Type().(*types.Signature)
				if hooks[full].Signature.Params().Len() == sig.Params().Len() {
					// the stand-in leaves out the receiver (of an unexported type)
					recv = nil
				}
				var nilCheck ast.Expr
				if sel, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr); ok && recv == nil {
					if s := pk.TypesInfo.Selections[sel]; s != nil && s.Kind() == types.MethodVal {
						if _, ptr := s.Recv().Underlying().(*types.Pointer); ptr {
							nilCheck = sel.X
							ast.Inspect(sel.X, func(n ast.Node) bool {
								if _, call := n.(*ast.CallExpr); call {
									nilCheck = nil
								}
								return true
							})
						}
					}
				}
				var params []string
				if recv != nil {
					params = append(params, typeText(sig.Recv().Type(), qual))
				}
				for j := 0; j < sig.Params().Len(); j++ {
					t := sig.Params().At(j).Type()
					s := typeText(t, qual)
					if sig.Variadic() && j == sig.Params().Len()-1 {
						s = "..." + typeText(t.(*types.Slice).Elem(), qual)
					}
					params = append(params, s)
				}
				var results []string
				for j := 0; j < sig.Results().Len(); j++ {
					results = append(results, typeText(sig.Results().At(j).Type(), qual))
				}
				ty := "func(" + strings.Join(params, ", ") + ")"
				if len(results) > 0 {
					ty += " (" + strings.Join(results, ", ") + ")"
				}
				c.Fun = &ast.Ident{Name: fmt.Sprintf("zzverifrt.Hooks[%q].(%s)", full, ty)}
				if nilCheck != nil {
					// the receiver is evaluated all the same
					var eb bytes.Buffer
					if err := format.Node(&eb, p.fset, nilCheck); err == nil && !strings.ContainsRune(eb.String(), '\n') {
						c.Fun = &ast.Ident{Name: fmt.Sprintf("zzverifrt.HookOf(%q, %s).(%s)", full, eb.String(), ty)}
					}
				}
				if recv != nil {
					c.Args = append([]ast.Expr{recv}, c.Args...)
				}
			}
			// comments would be placed wrongly after the edits, and are not needed
			f.Comments = nil
			var bb bytes.Buffer
			err := format.Node(&bb, p.fset, f)
			for c, o := range was {
				c.Fun, c.Args = o.fun, o.args
			}
			f.Comments = comments
			if err != nil {
				return nil, nil, nil, fmt.Errorf("rewriting %s: %v", fn, err)
			}
			src := bb.String()
			// imports go after the package clause
			at := strings.Index(src, "package "+f.Name.Name)
			nl := strings.IndexByte(src[at:], '\n') + at
			imp := fmt.Sprintf("\nimport zzverifrt %q\n", modPath+"/internal/verifrt")
			for _, path := range sortedKeys(extra) {
				imp += fmt.Sprintf("import %s %q\n", extra[path], path)
			}
			src = src[:nl] + "\n" + imp + src[nl:]
			for _, path := range sortedKeys(imports) {
				n := imports[path]
				if n == "_" || n == "." {
					continue
				}
				if q := importedPkg(pk, path); q != nil {
					if o := anyExported(q.Types); o != "" {
						src += "\n" + strings.ReplaceAll(o, "@", n) + "\n"
					}
				}
			}
			dst := filepath.Join(work, fmt.Sprintf("rw_%s_%d_%s", group, len(out), filepath.Base(fn)))
			if err := os.WriteFile(dst, []byte(src), 0644); err != nil {
				return nil, nil, nil, err
			}
			out[fn] = dst
		}
	}
	return out, regs, sortedKeys(imps), nil
}

var anyWord = regexp.MustCompile(`\bany\b`)

// typeText spells a type for the language version of the repository.
func typeText(t types.Type, q types.Qualifier) string {
	return anyWord.ReplaceAllString(types.TypeString(t, q), "interface{}")
}

func importedPkg(pk *packages.Package, path string) *packages.Package { return pk.Imports[path] }

// anyExported is a declaration that keeps an import used.
func anyExported(p *types.Package) string {
	names := p.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		o := p.Scope().Lookup(n)
		if !o.Exported() {
			continue
		}
		switch t := o.(type) {
		case *types.TypeName:
			if nt, ok := t.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			return "type _ = @." + n
		case *types.Const:
			return "const _ = @." + n
		case *types.Func:
			if t.Type().(*types.Signature).TypeParams().Len() == 0 {
				return "var _ = @." + n
			}
		case *types.Var:
			return "var _ = @." + n
		}
	}
	return ""
}
