package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// buildOverlay maps harness files into /repo. Each harness file starts with
// "//verif:pkg <dir>" naming the repository directory it is compiled in.
func buildOverlay(repo, verif string, files []string) (map[string]string, []string, error) {
	ov := map[string]string{}
	var pats []string
	for _, f := range []string{"rt.go", "sched.go"} {
		ov[filepath.Join(repo, "internal/zzverif/rt", f)] = filepath.Join(verif, "engine/rt", f)
	}
	seen := map[string]bool{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, nil, err
		}
		dir := ""
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "//verif:pkg ") {
				dir = strings.TrimSpace(strings.TrimPrefix(l, "//verif:pkg "))
			}
		}
		for _, l := range strings.Split(string(b), "\n") {
			if !strings.HasPrefix(l, "//verif:models ") {
				continue
			}
			for _, mn := range strings.Fields(strings.TrimPrefix(l, "//verif:models ")) {
				p := "./internal/zzverif/m_" + mn
				if seen[p] {
					continue
				}
				seen[p] = true
				src := filepath.Join(verif, "engine/models", mn+".go")
				ov[filepath.Join(repo, "internal/zzverif/m_"+mn, mn+".go")] = src
				pats = append(pats, p)
			}
		}
		if dir == "" {
			return nil, nil, fmt.Errorf("%s: no //verif:pkg line", f)
		}
		ov[filepath.Join(repo, dir, "zz_verif_"+filepath.Base(f))] = f
		if !seen[dir] {
			seen[dir] = true
			pats = append(pats, "./"+dir)
		}
	}
	return ov, pats, nil
}

const goBin = "/opt/veriftools/go1.24.13/bin"

// modDir holds copies of the repository's go.mod and go.sum, so that no run of the go command edits the originals.
var modDir string

func copyMod(repo string) error {
	d, err := os.MkdirTemp("", "gosmt-mod-")
	if err != nil {
		return err
	}
	modDir = d
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil && f == "go.mod" {
			return err
		}
		if err := os.WriteFile(filepath.Join(d, f), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

func dropMod() {
	if strings.HasPrefix(modDir, os.TempDir()+"/gosmt-mod-") {
		os.RemoveAll(modDir)
	}
}

func goEnv() []string {
	env := append(os.Environ(), "PATH="+goBin+":"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod -modfile="+filepath.Join(modDir, "go.mod"), "CGO_ENABLED=0")
	return env
}

func loadProgram(repo string, ov map[string]string, pats []string) (*Program, error) {
	overlay := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		overlay[k] = b
	}
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax | packages.NeedModule,
		Dir:  repo, Env: goEnv(), Overlay: overlay,
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs[:min(len(errs), 5)], "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, models: map[string]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	P.modPath = "vsa"
	for k, v := range overlay {
		i := strings.Index(k, "internal/zzverif/m_")
		if i < 0 {
			continue
		}
		pkg := P.pkgs[P.modPath+"/"+filepath.Dir(k[i:])]
		if pkg == nil {
			return nil, fmt.Errorf("model package of %s not loaded", k)
		}
		target := ""
		for _, l := range strings.Split(string(v), "\n") {
			if strings.HasPrefix(l, "//verif:model ") {
				target = strings.TrimSpace(strings.TrimPrefix(l, "//verif:model "))
			} else if strings.HasPrefix(l, "func ") && target != "" {
				n := l[5:]
				n = n[:strings.IndexByte(n, '(')]
				f := pkg.Func(n)
				if f == nil {
					return nil, fmt.Errorf("model function %s not found", n)
				}
				P.models[target] = f
				target = ""
			}
		}
	}
	return P, nil
}

// harnesses lists the VH_<prop>_* functions of the program with their options.
func (P *Program) harnesses(prop string) []*ssa.Function {
	var r []*ssa.Function
	for _, path := range sortedKeys(P.pkgs) {
		p := P.pkgs[path]
		if !strings.HasPrefix(path, P.modPath) {
			continue
		}
		for _, n := range sortedKeys(p.Members) {
			if f, ok := p.Members[n].(*ssa.Function); ok && strings.HasPrefix(n, "VH_"+prop+"_") {
				r = append(r, f)
			}
		}
	}
	return r
}
