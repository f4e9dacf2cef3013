package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ElectroUnion/egts-gate"

var (
	repoDir  = envOr("VERIF_REPO", "/repo")
	verifDir = envOr("VERIF_DIR", "/verif")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// harnessDir maps a harness group to the directory (relative to the repository) its files appear in.
func harnessDir(group string) string {
	if strings.HasPrefix(group, "at_") {
		return strings.ReplaceAll(strings.TrimPrefix(group, "at_"), "__", "/")
	}
	return "internal/verifh/" + group
}

func harnessPkg(group string) string { return modPath + "/" + harnessDir(group) }

// overlayFiles lists virtual file -> real file for the given harness groups.
func overlayFiles(groups []string) (map[string]string, error) {
	m := map[string]string{}
	add := func(real, virtDir string) {
		m[filepath.Join(repoDir, virtDir, filepath.Base(real))] = real
	}
	for _, f := range glob(filepath.Join(verifDir, "rt", "*.go")) {
		add(f, "internal/verifrt")
	}
	for _, f := range glob(filepath.Join(verifDir, "rt", "model", "*.go")) {
		add(f, "internal/verifrt/model")
	}
	for _, f := range glob(filepath.Join(verifDir, "rt", "replay", "*.go")) {
		add(f, "internal/verifrt/replay")
	}
	seen := map[string]bool{}
	todo := append([]string{"common"}, groups...)
	for len(todo) > 0 {
		g := todo[0]
		todo = todo[1:]
		if seen[g] {
			continue
		}
		seen[g] = true
		fs := glob(filepath.Join(verifDir, "harness", g, "*.go"))
		if len(fs) == 0 && g != "common" {
			return nil, fmt.Errorf("no harness files for %s", g)
		}
		for _, f := range fs {
			add(f, harnessDir(g))
			// harness packages it imports
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			for _, m := range harnessImport.FindAllStringSubmatch(string(b), -1) {
				todo = append(todo, m[1])
			}
		}
	}
	return m, nil
}

var harnessImport = regexp.MustCompile(`"` + regexp.QuoteMeta(modPath) + `/internal/verifh/([a-z_]+)"`)

func glob(p string) []string {
	r, _ := filepath.Glob(p)
	sort.Strings(r)
	return r
}

type Program struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package // group -> package
	redirects map[string]*ssa.Function
	// models are redirects for symbolic runs only; native runs use the real function
	models map[string]bool
	names     map[string][]string // group -> harness functions
	pkgName   map[string]string
	all       []*packages.Package
	fset      *token.FileSet
	files     map[string]string
}

func loadProgram(groups []string) (*Program, error) {
	files, err := overlayFiles(groups)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for v, r := range files {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		ov[v] = b
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: ov, Env: append(os.Environ(), "CGO_ENABLED=0")}
	pats := []string{"./internal/verifrt/model"}
	for _, g := range groups {
		pats = append(pats, "./"+harnessDir(g))
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 8 {
			errs = errs[:8]
		}
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	lateLoads(prog)
	out := &Program{fset: prog.Fset, files: files, prog: prog, pkgs: map[string]*ssa.Package{}, redirects: map[string]*ssa.Function{}, models: map[string]bool{}, names: map[string][]string{}, pkgName: map[string]string{}}
	packages.Visit(ps, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		out.all = append(out.all, p)
		sp := prog.Package(p.Types)
		for _, f := range p.Syntax {
			fn := prog.Fset.Position(f.Pos()).Filename
			if _, ours := files[fn]; !ours {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if strings.HasPrefix(c.Text, "//verif:redirect ") {
						out.redirects[strings.TrimSpace(strings.TrimPrefix(c.Text, "//verif:redirect "))] = sp.Func(fd.Name.Name)
					}
					if strings.HasPrefix(c.Text, "//verif:model ") {
						k := strings.TrimSpace(strings.TrimPrefix(c.Text, "//verif:model "))
						out.redirects[k] = sp.Func(fd.Name.Name)
						out.models[k] = true
					}
				}
			}
		}
	})
	for i, g := range groups {
		p := ps[i+1]
		for _, q := range ps {
			if q.PkgPath == harnessPkg(g) {
				p = q
			}
		}
		sp := prog.Package(p.Types)
		if sp == nil {
			return nil, fmt.Errorf("no package for %s", g)
		}
		out.pkgs[g] = sp
		out.pkgName[g] = p.Name
		for n, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "Verif") && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 {
				out.names[g] = append(out.names[g], n)
			}
		}
		sort.Strings(out.names[g])
	}
	return out, nil
}
