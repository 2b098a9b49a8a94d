package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mutableFields: reference fields (".pkg/T#f") whose referent some function writes in place.
func (e *Effects) mutableFields() map[string]modInfo {
	out := map[string]modInfo{}
	for _, f := range e.order {
		s := e.Sum(f)
		if s == nil {
			continue
		}
		for l, mi := range s.mods {
			cs := splitPath(l.P)
			for i := len(cs) - 1; i >= 0; i-- {
				if cs[i] != "*" {
					continue
				}
				for j := i - 1; j >= 0; j-- {
					if strings.HasPrefix(cs[j], ".") {
						if _, ok := out[cs[j]]; !ok {
							out[cs[j]] = mi
						}
						break
					}
					if cs[j] == "*" {
						break
					}
				}
				break
			}
		}
	}
	return out
}

// lastRefField: the field through which the reference naming location p was obtained ("" if none).
func lastRefField(p string) string {
	cs := splitPath(p)
	i := len(cs) - 1
	for i >= 0 && cs[i] != "*" {
		i--
	}
	for j := i - 1; j >= 0; j-- {
		if strings.HasPrefix(cs[j], ".") {
			return cs[j]
		}
		if cs[j] == "*" {
			return ""
		}
	}
	return ""
}

func lastField(p string) string {
	cs := splitPath(p)
	for i := len(cs) - 1; i >= 0; i-- {
		if strings.HasPrefix(cs[i], ".") {
			return cs[i]
		}
		if cs[i] == "*" {
			return ""
		}
	}
	return ""
}

type shareEdge struct {
	where string // description of the holder
	hf    string // typed field of the holder ("" when returned directly)
	to    Loc    // param- or global-rooted storage
	res   int
}

// sharing lists references from results (or from parameter objects) to storage of other parameters.
func (e *Effects) sharing(f *ssa.Function) []shareEdge {
	s := e.Sum(f)
	if s == nil {
		return nil
	}
	var out []shareEdge
	seen := map[Loc]bool{}
	var walk func(l Loc, res int, desc string)
	var visit func(l Loc, res int, hf, desc string)
	visit = func(l Loc, res int, hf, desc string) {
		if l.R.Kind == rkAlloc {
			walk(l, res, desc)
			return
		}
		out = append(out, shareEdge{desc, hf, l, res})
	}
	walk = func(l Loc, res int, desc string) {
		if seen[l] {
			return
		}
		seen[l] = true
		for c, ts := range s.cells {
			if c.R == l.R && isPrefix(l.P, c.P) {
				for t := range ts {
					visit(t, res, lastField(c.P), desc+renderPath(c.P))
				}
			}
		}
		for c, ts := range s.cops {
			if c.R == l.R && (isPrefix(l.P, c.P) || isPrefix(c.P, l.P)) {
				for t := range ts {
					out = append(out, shareEdge{desc + renderPath(c.P) + " (copied struct)", lastField(c.P), t, res})
				}
			}
		}
	}
	for i, r := range s.rets {
		for l := range r {
			visit(l, i, "", "result")
		}
	}
	// references stored into parameter objects
	for c, ts := range s.cells {
		if c.R.Kind == rkAlloc {
			continue
		}
		for t := range ts {
			if t.R.Kind == rkAlloc || t.R == c.R {
				continue
			}
			out = append(out, shareEdge{c.String(), lastField(c.P), t, -1})
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].where != out[j].where {
			return out[i].where < out[j].where
		}
		return out[i].to.String() < out[j].to.String()
	})
	return out
}

func isSliceType(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Slice)
	return ok
}
