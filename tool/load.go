package main

import (
	"fmt"
	"os"
	"path/filepath"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/Harvey-OS/ninep"

// loadRepo type-checks the repository at dir (GOPATH mode, as the project is
// built) together with its dependencies and returns the SSA program.
// Only bodies of the packages in build are built; others are built on demand.
func loadRepo(dir, scratch string, overlay map[string][]byte) (*ssa.Program, map[string]*ssa.Package, error) {
	gp := filepath.Join(scratch, "gopath")
	if err := os.MkdirAll(filepath.Join(gp, "src/github.com/Harvey-OS"), 0755); err != nil {
		return nil, nil, err
	}
	link := filepath.Join(gp, "src", modPath)
	os.Remove(link)
	if err := os.Symlink(dir, link); err != nil {
		return nil, nil, err
	}
	env := append(os.Environ(), "GOENV=off", "GOPATH="+gp, "GO111MODULE=off", "GOFLAGS=", "GOWORK=off",
		"GOPROXY=off", "GOTOOLCHAIN=local", "GOTELEMETRY=off", "PWD="+link, "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     link,
		Env:     env,
		Overlay: overlay,
	}
	pats := []string{modPath + "/protocol", modPath + "/filesystem", modPath + "/pkg/debugfs"}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	nerr := 0
	for _, p := range pkgs {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load:", e)
			nerr++
		}
	}
	if nerr > 0 {
		return nil, nil, fmt.Errorf("%d package errors", nerr)
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	out := map[string]*ssa.Package{}
	for i, p := range spkgs {
		if p == nil {
			return nil, nil, fmt.Errorf("no ssa package for %s", pkgs[i].PkgPath)
		}
		p.Build()
		out[filepath.Base(pkgs[i].PkgPath)] = p
	}
	return prog, out, nil
}
