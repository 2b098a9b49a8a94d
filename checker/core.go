package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/apache/datasketches-go"

// Prog is the type-checked program and its SSA form.
type Prog struct {
	consts *Consts
	Repo   string
	Fset   *token.FileSet
	Pkgs   map[string]*packages.Package // by short path ("theta", "internal/quantiles")
	SSA    *ssa.Program
	SPkgs  map[string]*ssa.Package
	folded map[*ssa.Package]map[*ssa.Global]*bObj
	Funcs  []*ssa.Function // all repo functions with bodies, incl. closures and generic origins
	byName map[string]*ssa.Function
	eff    *Effects
}

func goroot() string {
	if g := os.Getenv("VERIF_GOROOT"); g != "" {
		return g
	}
	g := "/opt/veriftools/go1.24.13"
	if _, err := os.Stat(g + "/bin/go"); err == nil {
		return g
	}
	return ""
}

func load(repo string) (*Prog, error) {
	env := os.Environ()
	if g := goroot(); g != "" {
		os.Setenv("PATH", g+"/bin:"+os.Getenv("PATH"))
		env = append(os.Environ(), "GOROOT="+g)
	}
	env = append(env, "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: repo, Env: env}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Prog{Repo: repo, Pkgs: map[string]*packages.Package{}, SPkgs: map[string]*ssa.Package{}, byName: map[string]*ssa.Function{}}
	for _, pk := range ps {
		if len(pk.Errors) > 0 {
			return nil, fmt.Errorf("package %s: %v", pk.PkgPath, pk.Errors[0])
		}
		p.Fset = pk.Fset
		sp := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")
		if len(pk.Syntax) == 0 {
			continue
		}
		p.Pkgs[sp] = pk
	}
	prog, spk := ssautil.AllPackages(ps, 0)
	prog.Build()
	p.SSA = prog
	for i, s := range spk {
		if s == nil || len(ps[i].Syntax) == 0 {
			continue
		}
		p.SPkgs[strings.TrimPrefix(strings.TrimPrefix(s.Pkg.Path(), modPath), "/")] = s
	}
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		if f.Blocks != nil {
			p.Funcs = append(p.Funcs, f)
		}
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var names []string
	for n := range p.SPkgs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		s := p.SPkgs[n]
		var ms []string
		for m := range s.Members {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			switch x := s.Members[m].(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				if nt, ok := x.Type().(*types.Named); ok {
					for i := 0; i < nt.NumMethods(); i++ {
						add(prog.FuncValue(nt.Method(i)))
					}
				}
			}
		}
	}
	p.loadCanon()
	for _, f := range p.Funcs {
		p.byName[p.FName(f)] = f
	}
	return p, nil
}

// FName is the short, line-independent name of a repo function: theta.(hashtable).Insert, theta.find, x$1.
func (p *Prog) FName(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	f = norm(f)
	if f.Parent() != nil {
		return p.FName(f.Parent()) + "$" + strings.TrimPrefix(f.Name()[strings.LastIndex(f.Name(), "$")+1:], "$")
	}
	return canonFuncName(p.rawName(f))
}

func (p *Prog) rawName(f *ssa.Function) string {
	pk := ""
	if f.Pkg != nil {
		pk = shortPkg(f.Pkg.Pkg)
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pk = shortPkg(f.Object().Pkg())
	}
	if r := f.Signature.Recv(); r != nil {
		return pk + ".(" + typeBase(r.Type()) + ")." + f.Name()
	}
	return pk + "." + f.Name()
}

func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath), "/")
}

func typeBase(t types.Type) string {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

func (p *Prog) Fn(name string) *ssa.Function { return p.byName[name] }

// norm maps instantiations to the generic origin, whose body is analysed.
func norm(f *ssa.Function) *ssa.Function {
	if f == nil {
		return nil
	}
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

func (p *Prog) IsRepo(f *ssa.Function) bool {
	f = norm(f)
	for f.Parent() != nil {
		f = f.Parent()
	}
	var pk *types.Package
	if f.Pkg != nil {
		pk = f.Pkg.Pkg
	} else if f.Object() != nil {
		pk = f.Object().Pkg()
	}
	return pk != nil && (pk.Path() == modPath || strings.HasPrefix(pk.Path(), modPath+"/"))
}

func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	r, err := filepath.Rel(p.Repo, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

// own tells whether a position lies in the code analysed.
func (p *Prog) own(pos token.Pos) bool {
	return pos.IsValid() && strings.HasPrefix(p.Fset.Position(pos).Filename, p.Repo+"/")
}

// ---------------------------------------------------------------- reports

type Obl struct {
	Rule   string `json:"rule"`
	Key    string `json:"construct"`
	Pos    string `json:"pos"`
	Status string `json:"status"` // ok, violated, undecided
	Msg    string `json:"msg,omitempty"`
}

type Report struct {
	ID       string
	Obls     []Obl
	Counts   map[string]int
	Explain  string
	Assume   []string
	floors   map[string]int
	selftest []string
}

func newReport(id string) *Report {
	return &Report{ID: id, Counts: map[string]int{}, floors: map[string]int{}}
}
func (r *Report) add(rule, key, pos, status, msg string) {
	r.Obls = append(r.Obls, Obl{rule, key, pos, status, msg})
}
func (r *Report) ok(rule, key, pos string)             { r.add(rule, key, pos, "ok", "") }
func (r *Report) bad(rule, key, pos, msg string)       { r.add(rule, key, pos, "violated", msg) }
func (r *Report) undecided(rule, key, pos, msg string) { r.add(rule, key, pos, "undecided", msg) }
func (r *Report) check(cond bool, rule, key, pos, msg string) {
	if cond {
		r.ok(rule, key, pos)
	} else {
		r.bad(rule, key, pos, msg)
	}
}

// floor: the rule must have been applied to at least n constructs, otherwise the check lost its subject.
func (r *Report) floor(rule string, n int) { r.floors[rule] = n }

type known struct{ prop, key, what string }

func loadKnown(file string) []known {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		// finding: property=C07 construct=<key> :: what
		l = strings.TrimSpace(strings.TrimPrefix(l, "finding:"))
		what := ""
		if i := strings.Index(l, " :: "); i >= 0 {
			what = l[i+4:]
			l = l[:i]
		}
		f := strings.SplitN(l, " ", 2)
		if len(f) != 2 {
			continue
		}
		ks = append(ks, known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "construct="), what})
	}
	return ks
}

func (r *Report) finish(verif, tier string, seed int, start time.Time, list bool) int {
	byRule := map[string]int{}
	discharged := 0
	sort.SliceStable(r.Obls, func(i, j int) bool {
		if r.Obls[i].Rule != r.Obls[j].Rule {
			return r.Obls[i].Rule < r.Obls[j].Rule
		}
		return r.Obls[i].Key < r.Obls[j].Key
	})
	ks := loadKnown(filepath.Join(verif, "known_findings.txt"))
	var viol, kf []Obl
	for _, o := range r.Obls {
		byRule[o.Rule]++
		if o.Status == "ok" {
			discharged++
			continue
		}
		isK := false
		for _, k := range ks {
			if k.prop == r.ID && k.key == o.Rule+"|"+o.Key {
				isK = true
				kf = append(kf, o)
				break
			}
		}
		if !isK {
			viol = append(viol, o)
		}
	}
	for rule, n := range r.floors {
		if byRule[rule] < n {
			viol = append(viol, Obl{rule, "coverage-floor", "", "undecided", fmt.Sprintf("rule applied to %d constructs, at least %d expected: the check lost its subject", byRule[rule], n)})
		}
	}
	if list {
		for _, o := range r.Obls {
			fmt.Printf("%-9s %s|%s  %s  %s\n", o.Status, o.Rule, o.Key, o.Pos, o.Msg)
		}
	}
	for _, o := range kf {
		fmt.Printf("KNOWN-FINDING: property=%s %s|%s at %s: %s\n", r.ID, o.Rule, o.Key, o.Pos, o.Msg)
	}
	samples := []Obl{}
	perRule := map[string]int{}
	for _, o := range r.Obls {
		if perRule[o.Rule] < 6 {
			perRule[o.Rule]++
			samples = append(samples, o)
		}
	}
	cov := map[string]any{
		"explanation": r.Explain, "obligations": len(r.Obls), "discharged": discharged,
		"obligations_by_rule": byRule, "known_findings_matched": len(kf), "counts": r.Counts, "samples": samples,
	}
	ev := map[string]any{"property": r.ID, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": r.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(viol)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", r.ID+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	if len(viol) == 0 {
		fmt.Printf("property=%s held: %d obligations discharged, %d known findings\n", r.ID, discharged, len(kf))
		return 0
	}
	rp := filepath.Join(verif, "evidence", r.ID+".violations.txt")
	var sb strings.Builder
	for _, o := range viol {
		l := fmt.Sprintf("%s rule=%s construct=%s at %s: %s\n", o.Status, o.Rule, o.Key, o.Pos, o.Msg)
		sb.WriteString(l)
		fmt.Print("  ", l)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.ID, rp)
	return 1
}
