package main

import (
	_ "embed"
	"encoding/json"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Renaming tolerance: base.json records the names (not the bodies) of functions,
// struct fields and their types at the time the rules were written. A name that is
// new in the analysed tree and is the only candidate for one that vanished (same
// package and receiver and signature, or same struct and field type) is treated as
// a rename, so that rules keyed by name keep their subject.

//go:embed base.json
var baseJSON []byte

type snapshot struct {
	Funcs   map[string]string      `json:"funcs"`
	Structs map[string][][2]string `json:"structs"`
}

type canonT struct {
	fields map[string]map[string]string
	funcs  map[string]string
}

var canon *canonT

func typStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return shortPkg(p) })
}

func (p *Prog) snapshot() *snapshot {
	s := &snapshot{map[string]string{}, map[string][][2]string{}}
	for _, f := range p.Funcs {
		if f.Parent() == nil && f.Synthetic == "" {
			s.Funcs[p.rawName(f)] = typStr(f.Signature)
		}
	}
	for sp, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			st, ok := tn.Type().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			var fs [][2]string
			for i := 0; i < st.NumFields(); i++ {
				fs = append(fs, [2]string{st.Field(i).Name(), typStr(st.Field(i).Type())})
			}
			s.Structs[sp+"/"+n] = fs
		}
	}
	return s
}

func (p *Prog) writeSnapshot(verif string) {
	b, _ := json.MarshalIndent(p.snapshot(), "", " ")
	os.WriteFile(filepath.Join(verif, "checker", "base.json"), b, 0o644)
}

func (p *Prog) loadCanon() {
	c := &canonT{map[string]map[string]string{}, map[string]string{}}
	canon = c
	var old snapshot
	if json.Unmarshal(baseJSON, &old) != nil || old.Funcs == nil {
		return
	}
	cur := p.snapshot()
	for n, fs := range cur.Structs {
		ofs, ok := old.Structs[n]
		if !ok {
			continue
		}
		has, ohas := map[string]bool{}, map[string]bool{}
		for _, f := range fs {
			has[f[0]] = true
		}
		for _, f := range ofs {
			ohas[f[0]] = true
		}
		gone := map[string][]string{}
		fresh := map[string][]string{}
		for _, f := range ofs {
			if !has[f[0]] {
				gone[f[1]] = append(gone[f[1]], f[0])
			}
		}
		for _, f := range fs {
			if !ohas[f[0]] {
				fresh[f[1]] = append(fresh[f[1]], f[0])
			}
		}
		for t, g := range gone {
			if len(g) == len(fresh[t]) { // in declaration order
				for i := range g {
					if c.fields[n] == nil {
						c.fields[n] = map[string]string{}
					}
					c.fields[n][fresh[t][i]] = g[i]
				}
			}
		}
	}
	type fk struct{ recv, sig string }
	key := func(n, sig string) fk {
		i := len(n) - 1
		for i >= 0 && n[i] != '.' {
			i--
		}
		return fk{n[:i+1], sig}
	}
	gone, fresh := map[fk][]string{}, map[fk][]string{}
	for n, s := range old.Funcs {
		if _, ok := cur.Funcs[n]; !ok {
			gone[key(n, s)] = append(gone[key(n, s)], n)
		}
	}
	for n, s := range cur.Funcs {
		if _, ok := old.Funcs[n]; !ok {
			fresh[key(n, s)] = append(fresh[key(n, s)], n)
		}
	}
	for k, g := range gone {
		if fr := fresh[k]; len(g) == 1 && len(fr) == 1 {
			sort.Strings(fr)
			c.funcs[fr[0]] = g[0]
		}
	}
}

func canonFieldName(owner, name string) string {
	if canon != nil {
		if m := canon.fields[owner]; m != nil {
			if o, ok := m[name]; ok {
				return o
			}
		}
	}
	return name
}

// fieldName is the name field i of struct type t had when the rules were written.
func fieldName(t types.Type, i int) string {
	f := fieldComp(t, i)
	return f[strings.LastIndexByte(f, '#')+1:]
}

func canonFuncName(n string) string {
	if canon != nil {
		if o, ok := canon.funcs[n]; ok {
			return o
		}
	}
	return n
}

var _ = ssa.NaiveForm
