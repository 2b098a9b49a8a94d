package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: every decoder is interpreted, over the bit-provenance domain, on images whose identity bytes are
// fixed to one unsupported value and whose other bytes are unknown. Every path must end in an error.

func init() { checks["C19"] = chkC19 }

type imgFormat struct {
	entry string
	ctor  string // makes the receiver when the entry is a method
	ident map[int][]int
	skip  func(at, val int) bool
}

// formats of the published binary layouts: byte 1 is the serial version, byte 2 the family (sketch) type.
var imgFormats = []imgFormat{
	{entry: "theta.Decode", ident: map[int][]int{2: {3}, 1: {1, 2, 3, 4}}},
	{entry: "theta.WrapCompactSketch", ident: map[int][]int{2: {3}, 1: {1, 2, 3, 4}}},
	{entry: "theta.(Decoder).Decode", ctor: "theta.NewDecoder", ident: map[int][]int{2: {3}, 1: {1, 2, 3, 4}}},
	{entry: "tuple.Decode", ident: map[int][]int{2: {9}, 1: {1, 3}, 3: {1, 5}}},
	{entry: "tuple.DecodeArrayOfNumbersCompactSketch", ident: map[int][]int{2: {9}, 1: {1}, 3: {3}}},
	{entry: "hll.NewHllSketchFromSlice", ident: map[int][]int{0: {2, 3, 10}, 2: {7}, 1: {1}}},
	{entry: "hll.NewUnionFromSlice", ident: map[int][]int{0: {2, 3, 10}, 2: {7}, 1: {1}}},
	{entry: "cpc.NewCpcSketchFromSlice", ident: map[int][]int{2: {16}, 1: {1}}},
	{entry: "cpc.NewCpcWrapperFromBytes", ident: map[int][]int{2: {16}, 1: {1}}},
	{entry: "kll.NewKllItemsSketchFromSlice", ident: map[int][]int{0: {2, 5}, 2: {15}, 1: {1, 2}}},
	{entry: "frequencies.NewFrequencyItemsSketchFromSlice", ident: map[int][]int{0: {1, 4}, 2: {10}, 1: {1}}},
	{entry: "frequencies.NewLongsSketchFromSlice", ident: map[int][]int{0: {1, 4}, 2: {10}, 1: {1}}},
	{entry: "filters.NewBloomFilterFromSlice", ident: map[int][]int{0: {3, 4}, 2: {21}, 1: {1}}},
	{entry: "count.(CountMinSketch).Deserialize", ctor: "", ident: map[int][]int{0: {2}, 2: {18}, 1: {1}}},
	{entry: "tdigest.DecodeDouble", ident: map[int][]int{0: {1, 2}, 2: {20}, 1: {1}}},
	{entry: "tdigest.(DoubleDecoder).Decode", ctor: "tdigest.NewDoubleDecoder", ident: map[int][]int{0: {1, 2}, 2: {20}, 1: {1}}},
	{entry: "sampling.DecodeVarOptItemsSketch", ident: map[int][]int{0: {1, 3, 4}, 2: {13}, 1: {2}}},
	{entry: "sampling.DecodeVarOptItemsUnion", ident: map[int][]int{0: {1, 4}, 2: {14}, 1: {2}}},
	{entry: "sampling.NewReservoirItemsSketchFromSlice", ident: map[int][]int{0: {1, 2}, 2: {11}, 1: {2, 1}}},
	{entry: "sampling.NewReservoirItemsUnionFromSlice", ident: map[int][]int{0: {1}, 2: {12}, 1: {2, 1}}},
}

// entryTypes gives the type arguments a generic entry point is analysed with.
func entryTypes(fn *ssa.Function) tmap {
	m := tmap{}
	add := func(l *types.TypeParamList) {
		if l == nil {
			return
		}
		for i := 0; i < l.Len(); i++ {
			m[l.At(i)] = types.Typ[types.Int64]
		}
	}
	add(fn.Signature.TypeParams())
	add(fn.Signature.RecvTypeParams())
	return m
}

// entryArgs makes arguments for a decoder: the image for the bytes, unknown helpers for callbacks.
func entryArgs(p *Prog, s *bitsim, fn *ssa.Function, ctor string, img bslice) []bval {
	var in []bval
	for i, q := range fn.Params {
		t := s.tm.of(q.Type())
		if i == 0 && fn.Signature.Recv() != nil {
			if ctor != "" {
				if c := p.Fn(ctor); c != nil {
					in = append(in, s.call(norm(c), entryArgs(p, s, norm(c), "", img), nil, s.tm))
					continue
				}
			}
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				in = append(in, bptr{&bObj{name: "receiver", cells: []bval{s.zero(pt.Elem())}}, 0})
				continue
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			in = append(in, img)
		case *types.Basic:
			if u.Info()&types.IsBoolean != 0 {
				in = append(in, bconst(0, 1))
			} else if w := intWidth(u); w > 0 {
				in = append(in, bconst(9001, w))
			} else {
				in = append(in, bunk{"argument"})
			}
		case *types.Signature:
			n := u.Results().Len()
			res := u.Results()
			in = append(in, bfunc{hook: func(a []bval) bval { return hookResult(s, res, n) }})
		case *types.Interface:
			if t.String() == "io.Reader" {
				nr := p.SSA.ImportedPackage("bytes").Func("NewReader")
				v := s.call(nr, []bval{img}, nil, nil)
				in = append(in, biface{t: nr.Signature.Results().At(0).Type(), v: v})
				continue
			}
			in = append(in, biface{hook: func(name string, a []bval) (bval, bool) {
				for i := 0; i < u.NumMethods(); i++ {
					if m := u.Method(i); m.Name() == name {
						res := m.Type().(*types.Signature).Results()
						return hookResult(s, res, res.Len()), true
					}
				}
				return bunk{name}, true
			}})
		default:
			in = append(in, bunk{"argument"})
		}
	}
	return in
}

func hookResult(s *bitsim, res *types.Tuple, n int) bval {
	var t btuple
	for i := 0; i < n; i++ {
		rt := res.At(i).Type()
		switch {
		case isError(rt):
			t = append(t, bnil{})
		case intWidth(s.tm.of(rt)) > 0:
			w := intWidth(s.tm.of(rt))
			t = append(t, s.source("callback", w, w))
		default:
			t = append(t, bunk{"callback"})
		}
	}
	switch n {
	case 0:
		return bnil{}
	case 1:
		return t[0]
	}
	return t
}

// outcome classifies the end of a path through a function whose last result is an error.
func outcome(e pathEnd) string {
	if e.st != nil {
		return e.st.kind
	}
	v := e.res
	if t, ok := v.(btuple); ok {
		v = t[len(t)-1]
	}
	switch v.(type) {
	case bnil:
		return "accepted"
	case biface:
		return "rejected"
	}
	return "unknown"
}

func chkC19(p *Prog, r *Report) {
	r.Explain = "rule: each decoder is followed along every path on images whose identity byte has an unsupported value, all other bytes unknown; every path must return an error"
	lens := []int{3, 7, 8, 12, 16, 20, 24, 32, 40, 100}
	for _, fm := range imgFormats {
		fn := p.Fn(fm.entry)
		if fn == nil {
			r.undecided("decoder", fm.entry, "", "the decoder no longer exists")
			continue
		}
		fn = norm(fn)
		pos := p.Pos(fn.Pos())
		s := newBitsim(p)
		s.tm = entryTypes(fn)
		s.maxSteps = 200_000
		var ats []int
		for at := range fm.ident {
			ats = append(ats, at)
		}
		sort.Ints(ats)
		good := func(at, v int) bool {
			if at == 0 {
				v &= 0x3f // the upper bits hold the resize factor
			}
			for _, g := range fm.ident[at] {
				if g == v {
					return true
				}
			}
			return false
		}
		run := func(n int, set map[int]int, limit int) ([]pathEnd, bool) {
			return s.paths(fn, limit, func() []bval {
				o := &bObj{name: "image"}
				for i := 0; i < n; i++ {
					if v, ok := set[i]; ok {
						o.cells = append(o.cells, bconst(uint64(v), 8))
					} else {
						o.cells = append(o.cells, s.source(fmt.Sprintf("byte %d", i), 8, 8))
					}
				}
				return entryArgs(p, s, fn, fm.ctor, bslice{o, 0, n, n})
			})
		}
		// the interpretation reaches beyond the identity checks when they pass
		past := false
		what := map[string]int{}
		var why string
		for _, n := range []int{8, 16, 40, 100} {
			set := map[int]int{}
			for _, at := range ats {
				if at != 0 {
					set[at] = fm.ident[at][0]
				}
			}
			ends, _ := run(n, set, 60)
			for _, e := range ends {
				k := outcome(e)
				what[k]++
				if k != "rejected" {
					past = true
				}
				if e.st != nil {
					why = e.st.msg + " " + p.Pos(e.st.pos)
				}
			}
		}
		if os.Getenv("CHECK_DEBUG") != "" {
			fmt.Println(fm.entry, what, why)
		}
		if !past {
			r.undecided("decoder", fm.entry, pos, "no path accepts the format's own identity bytes")
		} else {
			r.ok("decoder", fm.entry, pos)
		}
		for _, at := range ats {
			name := map[int]string{0: "preamble size", 1: "serial version", 2: "family", 3: "sketch type"}[at]
			for v := 0; v < 256; v++ {
				if good(at, v) {
					continue
				}
				key := fmt.Sprintf("%s accepts %s %d", fm.entry, name, v)
				bad := ""
				at0 := pos
				for _, n := range lens {
					if n <= at {
						continue
					}
					for _, own := range fm.combos(at, v) {
						ends, full := run(n, own, 400)
						r.Counts["images"]++
						r.Counts["paths"] += len(ends)
						for _, e := range ends {
							k := outcome(e)
							if k == "rejected" || k == "panic" && n < 8 {
								continue
							}
							bad = fmt.Sprintf("an image of %d bytes with %s %d is %s", n, name, v, map[string]string{"accepted": "decoded", "panic": "met with a panic", "undecided": "not rejected before its content is used", "unknown": "not clearly rejected"}[k])
							if e.st != nil {
								bad += ": " + e.st.msg
								if q := p.Pos(e.st.pos); q != "" && !strings.HasPrefix(q, "-") && !strings.HasPrefix(q, "..") {
									at0 = q
								}
							}
							break
						}
						if !full && bad == "" {
							bad = "too many paths before the image is rejected"
						}
						if bad != "" {
							break
						}
					}
					if bad != "" {
						break
					}
				}
				if bad != "" {
					r.bad("identity", key, at0, bad)
					continue
				}
				r.ok("identity", key, pos)
			}
		}
	}
	r.floor("identity", 9000)
	r.floor("decoder", 20)
}

// combos lists the settings of the other identity bytes an unsupported value is tried with.
func (fm imgFormat) combos(at, v int) []map[int]int {
	out := []map[int]int{{at: v}}
	var ats []int
	for a := range fm.ident {
		if a != at && a != 0 {
			ats = append(ats, a)
		}
	}
	sort.Ints(ats)
	for _, a := range ats {
		var n []map[int]int
		for _, m := range out {
			for _, g := range fm.ident[a] {
				c := map[int]int{a: g}
				for k, x := range m {
					c[k] = x
				}
				n = append(n, c)
			}
		}
		out = n
	}
	return out
}
