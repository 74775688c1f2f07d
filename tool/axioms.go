package main

// The axioms about paths in models.go, tried against the real path package on
// every string up to a length over an alphabet in which everything that path
// treats specially occurs.  This is a bounded check of assumptions, reported as
// such; the obligations rest on the axioms.

import (
	"fmt"
	"path"
	"path/filepath"
	"strings"
)

const axiomLen = 6

// belowRoot is what "in the exported tree" means: q is the clean path r, or
// lies lexically below it.
func belowRoot(r, q string) bool {
	if q == r {
		return true
	}
	if q == "" || path.Clean(q) != q {
		return false
	}
	switch {
	case r == "/":
		return q[0] == '/'
	case r == ".":
		return q[0] != '/' && q != ".." && !strings.HasPrefix(q, "../")
	}
	if !strings.HasPrefix(q, r+"/") {
		return false
	}
	rest := q[len(r)+1:]
	return rest != ".." && !strings.HasPrefix(rest, "../")
}

func checkPathAxioms() (int, error) {
	var all []string
	var rec func(s string)
	rec = func(s string) {
		all = append(all, s)
		if len(s) < axiomLen {
			for _, c := range "/.a" {
				rec(s + string(c))
			}
		}
	}
	rec("")
	n := 0
	var err error
	want := func(ok bool, ax string, a ...string) {
		n++
		if !ok && err == nil {
			err = fmt.Errorf("the axiom %q fails for %q", ax, a)
		}
	}
	roots := map[string]bool{}
	for _, p := range all {
		r := path.Join(p, "/")
		if p != "" {
			roots[r] = true
			want(belowRoot(r, r), "within(join(p, /), join(p, /))", p)
		}
		want(path.Clean("/"+p) == path.Join("/", p), "clean(/ + x) = join(/, x)", p)
		want(path.Clean(p+"/") == path.Join(p, "/"), "clean(x + /) = join(x, /)", p)
		want(filepath.Clean(p) == path.Clean(p) && filepath.Dir(p) == path.Dir(p) && filepath.Join(p, "/") == r, "filepath = path", p)
		for _, y := range all {
			q := path.Join(p, path.Join("/", y))
			want(belowRoot(r, q), "within(join(p, /), join(p, join(/, y)))", p, y)
			c := path.Join(p, y)
			if p == "" {
				c = path.Join("/", y)
			}
			want(path.Clean(p+"/"+y) == c, "clean(x + / + y)", p, y)
			want(filepath.Join(p, y) == path.Join(p, y), "filepath.Join = path.Join", p, y)
		}
	}
	want(path.Join("/", "/") == "/", "join(/, /) = /")
	for r := range roots {
		var below []string
		for _, q := range all {
			if belowRoot(r, q) {
				below = append(below, q)
				want(path.Join(q, "/") == q, "within(r, q) ==> join(q, /) = q", r, q)
				want(q == r || belowRoot(r, path.Dir(q)), "within(r, q) && q != r ==> within(r, dir(q))", r, q)
			}
		}
		for _, q := range below {
			for s := range roots {
				if belowRoot(q, s) {
					want(belowRoot(r, s), "within is transitive", r, q, s)
				}
			}
		}
	}
	return n, err
}
