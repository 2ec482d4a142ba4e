package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the loaded repository.
type Program struct {
	prog *ssa.Program
	pkgs map[string]*ssa.Package // by short name
	list []*packages.Package
}

// loadRepo type-checks the current working tree of repo and builds SSA for it.
func loadRepo(repo, verif, modfile string, env []string) (*Program, error) {
	rootsFile := filepath.Join(verif, "harness/roots/roots.go")
	rootsSrc, err := os.ReadFile(rootsFile)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repo,
		Env:        env,
		BuildFlags: []string{"-modfile=" + modfile, "-mod=mod"},
		Overlay:    map[string][]byte{filepath.Join(repo, rootsPkg, "roots.go"): rootsSrc},
	}
	cfg.Mode &^= packages.NeedDeps // dependencies come from export data
	pats := []string{"./...", "./" + rootsPkg}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var keep []*packages.Package
	var errs []string
	for _, p := range ps {
		if strings.HasSuffix(p.PkgPath, "/test_helper") || strings.Contains(p.PkgPath, "/example") {
			continue
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
		keep = append(keep, p)
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("repository does not type-check:\n%s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.Packages(keep, ssa.InstantiateGenerics)
	prog.Build()
	r := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, list: keep}
	for _, p := range spkgs {
		if p == nil {
			continue
		}
		r.pkgs[shortPkg(p.Pkg.Path())] = p
	}
	if len(r.pkgs) == 0 {
		return nil, fmt.Errorf("no packages loaded from %s", repo)
	}
	return r, nil
}

// isRepoFunc tells whether a function body of the repository is available.
func isRepoFunc(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return strings.HasPrefix(g.Pkg.Pkg.Path(), repoPath)
		}
	}
	// synthetic wrappers (bound methods, thunks): executable as well
	return true
}

// prepareModfile writes a go.mod for /repo that maps the unavailable dependency to a stub.
func prepareModfile(repo, verif, dir string) (string, error) {
	src := filepath.Join(repo, "go.mod")
	b, err := os.ReadFile(src)
	if err != nil {
		b, err = os.ReadFile("/opt/vp/go.mod")
		if err != nil {
			return "", err
		}
	}
	s := string(b)
	s += "\nrequire github.com/lestrrat/go-jwx v0.0.0\nreplace github.com/lestrrat/go-jwx => " + filepath.Join(verif, "stubs/go-jwx") + "\n"
	s += "\nrequire verif.local/spec v0.0.0\nreplace verif.local/spec => " + filepath.Join(verif, "spec") + "\n"
	mf := filepath.Join(dir, "verif.mod")
	if err := os.WriteFile(mf, []byte(s), 0o644); err != nil {
		return "", err
	}
	sb, err := os.ReadFile(filepath.Join(repo, "go.sum"))
	if err != nil {
		sb, _ = os.ReadFile("/opt/vp/go.sum")
	}
	if err := os.WriteFile(filepath.Join(dir, "verif.sum"), sb, 0o644); err != nil {
		return "", err
	}
	return mf, nil
}
