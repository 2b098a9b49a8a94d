package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C16"] = chkC16 }

func globalOf(p *Prog, pkg, name string) *ssa.Global {
	if pk := p.SPkgs[pkg]; pk != nil {
		g, _ := pk.Members[name].(*ssa.Global)
		return g
	}
	return nil
}

// tableOf reads a table of constants.
func tableOf(v bval) ([]uint64, bool) {
	var cs []bval
	switch a := v.(type) {
	case bslice:
		cs = a.snap()
	case *bObj:
		cs = a.cells
	case bagg:
		cs = a.f
	default:
		return nil, false
	}
	var r []uint64
	for _, c := range cs {
		b, ok := c.(*bv)
		if !ok {
			return nil, false
		}
		k, ok := b.konst()
		if !ok {
			return nil, false
		}
		r = append(r, k)
	}
	return r, true
}

func elemsOf(v bval) []bval {
	switch a := v.(type) {
	case bslice:
		return a.snap()
	case *bObj:
		return a.cells
	case bagg:
		return a.f
	}
	return nil
}

// prefixCode says what is wrong with a table of 12-bit limited codes, least significant bit first.
func prefixCode(enc []uint64) string {
	if len(enc) == 0 {
		return "has no entries"
	}
	owner := make([]int, 4096)
	for i := range owner {
		owner[i] = -1
	}
	for s, e := range enc {
		l, c := int(e>>12), e&0xfff
		if l < 1 || l > 12 || e > 0xffff {
			return fmt.Sprintf("gives symbol %d a code of %d bits", s, l)
		}
		if c >= 1<<uint(l) {
			return fmt.Sprintf("gives symbol %d a code longer than its %d bits", s, l)
		}
		for g := 0; g < 1<<uint(12-l); g++ {
			x := int(c) | g<<uint(l)
			if owner[x] >= 0 {
				return fmt.Sprintf("gives symbols %d and %d codes one of which starts with the other", owner[x], s)
			}
			owner[x] = s
		}
	}
	for x, o := range owner {
		if o < 0 {
			return fmt.Sprintf("leaves the bit pattern %012b without a symbol", x)
		}
	}
	return ""
}

func inverseCode(enc, dec []uint64) string {
	if len(dec) < 4096 {
		return fmt.Sprintf("has %d entries", len(dec))
	}
	for s, e := range enc {
		l, c := int(e>>12), int(e&0xfff)
		for g := 0; l >= 1 && l <= 12 && g < 1<<uint(12-l); g++ {
			x := c | g<<uint(l)
			if dec[x&4095] != uint64(l<<8|s) {
				return fmt.Sprintf("decodes the code of symbol %d as symbol %d with %d bits", s, dec[x&4095]&255, dec[x&4095]>>8)
			}
		}
	}
	return ""
}

func chkC16(p *Prog, r *Report) {
	r.Explain = "The package initializer of cpc is folded by constant propagation. code: every encoding table is a complete prefix-free code of at most 12 bits. inverse: every decoding table maps every completion of every code to its symbol and length. permutation: the column tables are permutations and mutually inverse. window: the byte coder and decoder are followed through the bit-provenance lattice with unknown code bits, over all buffer fill levels and code lengths. pairs: the same for the pair coder with unknown row bits. flavor: for every window offset and phase, every column survives the column transformation and back, both directions choose corresponding tables and the same number of base bits."
	pk := p.SPkgs["cpc"]
	if pk == nil {
		r.undecided("code", "cpc", "", "package not found")
		return
	}
	s := newBitsim(p)
	if st := s.initPkg(pk); st != nil {
		r.undecided("code", "initializer", s.where(st, pk.Func("init")), "the tables do not follow from constants: "+st.msg)
		return
	}
	cell := func(name string) (bval, string) {
		g := globalOf(p, "cpc", name)
		if g == nil {
			return nil, ""
		}
		return s.glob[g].cells[0], p.Pos(g.Pos())
	}
	var encT, decT [][]uint64
	code := func(e bval, key, pos string) []uint64 {
		t, ok := tableOf(e)
		if !ok {
			r.undecided("code", key, pos, "not a table of constants")
			return nil
		}
		m := prefixCode(t)
		r.check(m == "", "code", key, pos, key+" "+m)
		return t
	}
	inv := func(enc []uint64, d bval, key, pos string) []uint64 {
		t, ok := tableOf(d)
		if !ok {
			r.undecided("inverse", key, pos, "not a table of constants")
			return nil
		}
		m := inverseCode(enc, t)
		r.check(m == "", "inverse", key, pos, key+" "+m)
		return t
	}
	e65, pos := cell("lengthLimitedUnaryEncodingTable65")
	if e65 != nil {
		t := code(e65, "column code table", pos)
		r.check(len(t) == 65, "code", "column code table length", pos, fmt.Sprintf("the column code table has %d entries instead of 65", len(t)))
		if d, pos := cell("lengthLimitedUnaryDecodingTable65"); d != nil {
			inv(t, d, "column decoding table", pos)
		}
	}
	if ev, pos := cell("encodingTablesForHighEntropyByte"); ev != nil {
		for i, e := range elemsOf(ev) {
			t := code(e, fmt.Sprintf("window code table %d", i), pos)
			r.check(len(t) == 256, "code", fmt.Sprintf("window code table %d length", i), pos, fmt.Sprintf("window code table %d has %d entries instead of 256", i, len(t)))
			encT = append(encT, t)
		}
	}
	if dv, pos := cell("decodingTablesForHighEntropyByte"); dv != nil {
		for i, d := range elemsOf(dv) {
			if i < len(encT) {
				decT = append(decT, inv(encT[i], d, fmt.Sprintf("window decoding table %d", i), pos))
			}
		}
	}
	pe, pos := cell("columnPermutationsForEncoding")
	pd, _ := cell("columnPermutationsForDecoding")
	if pe != nil && pd != nil {
		es, ds := elemsOf(pe), elemsOf(pd)
		for i := range es {
			key := fmt.Sprintf("column permutation %d", i)
			a, ok1 := tableOf(es[i])
			var b []uint64
			ok2 := false
			if i < len(ds) {
				b, ok2 = tableOf(ds[i])
			}
			msg := ""
			if !ok1 || !ok2 || len(a) != 56 || len(b) != 56 {
				msg = "does not have 56 entries in both directions"
			}
			seen := map[uint64]bool{}
			for j := 0; j < 56 && msg == ""; j++ {
				if a[j] > 55 || seen[a[j]] {
					msg = fmt.Sprintf("maps two columns to %d", a[j])
				} else if b[a[j]] != uint64(j) {
					msg = fmt.Sprintf("maps column %d to %d and that back to %d", j, a[j], b[a[j]])
				}
				seen[a[j]] = true
			}
			r.check(msg == "", "permutation", key, pos, key+" "+msg)
		}
	}
	c16Window(p, r, s.glob)
	c16Pairs(p, r, s.glob)
	c16Flavor(p, r, s.glob, decT)
	r.floor("code", 46)
	r.floor("inverse", 23)
	r.floor("permutation", 16)
	r.floor("window", 700)
	r.floor("pairs", 100)
	r.floor("flavor", 500)
}

// c16Window: codes of known length but unknown bits go through the byte coder and back.
func c16Window(p *Prog, r *Report, glob map[*ssa.Global]*bObj) {
	cf, df := p.Fn("cpc.lowLevelCompressBytes"), p.Fn("cpc.lowLevelUncompressBytes")
	if cf == nil || df == nil {
		return
	}
	// every buffer fill level at the end with every last code length, and a long mixture
	var seqs [][]int
	for lead := 0; lead < 32; lead++ {
		for l := 1; l <= 12; l++ {
			var q []int
			for n := lead; n > 0; {
				c := min(n, 1+(lead+l+n)%12)
				q = append(q, c)
				n -= c
			}
			seqs = append(seqs, append(q, l))
		}
	}
	var mix []int
	rnd := uint32(12345)
	for i := 0; i < 4000; i++ {
		rnd = rnd*1664525 + 1013904223
		mix = append(mix, 1+int(rnd>>16)%12)
	}
	seqs = append(seqs, mix)
	for _, q := range seqs {
		n := len(q)
		total := 0
		for _, l := range q {
			total += l
		}
		key := fmt.Sprintf("%d bytes, %d bits, last code of %d bits", n, total, q[n-1])
		s := newBitsim(p)
		s.glob = glob
		var length [256]int
		tab := &bObj{name: "table"}
		for i := range length {
			length[i] = 1 + i%12
			e := s.source(fmt.Sprintf("code %d", i), 16, length[i])
			for j := 0; j < 4; j++ {
				e.b[12+j] = int32(length[i] >> uint(j) & 1)
			}
			tab.cells = append(tab.cells, e)
		}
		src := &bObj{name: "window"}
		var want []int32 // the expected stream
		states := map[[2]int]bool{}
		for i, l := range q {
			b := l - 1 + 12*(i*7%21)
			src.cells = append(src.cells, bconst(uint64(b), 8))
			states[[2]int{len(want) % 32, length[b]}] = true
			e := tab.cells[b].(*bv)
			want = append(want, e.b[:length[b]]...)
		}
		size := (12*n + 11 + 31) / 32
		words := &bObj{name: "words"}
		for i := 0; i < size; i++ {
			words.cells = append(words.cells, bconst(0, 64))
		}
		res, st := s.run(cf, []bval{bslice{src, 0, n, n}, bconst(uint64(n), 64), bslice{tab, 0, 256, 256}, bslice{words, 0, size, size}})
		if st != nil {
			r.add("window", "compress "+key, s.where(st, cf), kindOf(st), "compressing "+key+": "+st.msg)
			continue
		}
		msg := ""
		cnt := uint64(0)
		if b, ok := res.(*bv); ok {
			cnt, _ = b.konst()
		}
		if int(cnt)*32 < len(want) || int(cnt) > size {
			msg = fmt.Sprintf("reports %d words for %d bits", cnt, len(want))
		}
		for i := 0; i < len(want) && msg == ""; i++ {
			w, ok := words.cells[i/32].(*bv)
			if !ok || w.b[i%32] != want[i] {
				msg = fmt.Sprintf("puts the wrong bit at position %d of the stream", i)
			}
		}
		r.check(msg == "", "window", "compress "+key, p.Pos(cf.Pos()), "compressing "+key+" "+msg)
		if msg != "" {
			continue
		}
		at, pos := 0, 0
		bad := ""
		dt := &bObj{name: "table"}
		for i := 0; i < 4096; i++ {
			dt.cells = append(dt.cells, bunk{"decoding table"})
		}
		dt.sym = func(idx *bv) bval {
			if at >= n {
				bad = "looks up more symbols than were stored"
				return bconst(1<<8, 16)
			}
			k, _ := src.cells[at].(*bv).konst()
			l := length[k]
			for i := 0; i < l; i++ {
				if idx.b[i] != want[pos+i] {
					bad = fmt.Sprintf("looks up the wrong bits for symbol %d", at)
				}
			}
			for i := 12; i < idx.w; i++ {
				if idx.b[i] != bZero {
					bad = "looks up more than twelve bits"
				}
			}
			at++
			pos += l
			return bconst(uint64(l)<<8|k, 16)
		}
		out := &bObj{name: "out"}
		for i := 0; i < n; i++ {
			out.cells = append(out.cells, bconst(0, 8))
		}
		c := int(cnt)
		res, st = s.run(df, []bval{bslice{out, 0, n, n}, bconst(uint64(n), 64), bslice{dt, 0, 4096, 4096}, bslice{words, 0, c, c}, bconst(cnt, 64)})
		if st != nil {
			r.add("window", "uncompress "+key, s.where(st, df), kindOf(st), "uncompressing "+key+": "+st.msg)
			continue
		}
		if _, ok := res.(bnil); !ok {
			bad = "reports an error"
		}
		for i := 0; i < n && bad == ""; i++ {
			b, ok := out.cells[i].(*bv)
			if !ok || *b != *src.cells[i].(*bv) {
				bad = fmt.Sprintf("yields something else for symbol %d", i)
			}
		}
		r.check(bad == "", "window", "uncompress "+key, p.Pos(df.Pos()), "uncompressing "+key+" "+bad)
		r.Counts["(fill level, code length) states of the window coder"] = max(r.Counts["(fill level, code length) states of the window coder"], len(states))
	}
}

// c16Pairs: pairs with known columns and unknown row bits go through the pair coder and back.
func c16Pairs(p *Prog, r *Report, glob map[*ssa.Global]*bObj) {
	cf, df := p.Fn("cpc.lowLevelCompressPairs"), p.Fn("cpc.lowLevelUncompressPairs")
	bf := p.Fn("cpc.golombChooseNumberOfBaseBits")
	if cf == nil || df == nil || bf == nil {
		return
	}
	for lgK := 4; lgK <= 26; lgK++ {
		for _, n := range []int{1, 2, 3, 7, 20, 61, 600} {
			for variant, n0 := 0, n; variant < 3; variant++ {
				n := n0
				k := 1 << uint(lgK)
				if n > 3*k || n > 100 && lgK%4 != 0 || variant == 2 && n < 600 {
					continue
				}
				key := fmt.Sprintf("%d pairs, lgK %d, variant %d", n, lgK, variant)
				s := newBitsim(p)
				s.glob = glob
				bb, st := s.run(bf, []bval{bconst(uint64(k+n), 64), bconst(uint64(n), 64)})
				base := -1
				if t, ok := retConst(bb, 0); ok && st == nil {
					base = int(t)
				}
				if base < 0 || base > 30 {
					r.bad("pairs", key, p.Pos(bf.Pos()), "the number of base bits does not follow from the configuration")
					continue
				}
				rnd := uint32(lgK*1000+n*10+variant)*2654435761 + 99
				next := func(m int) int {
					rnd = rnd*1664525 + 1013904223
					return int(rnd>>12) % m
				}
				arr := &bObj{name: "pairs"}
				row := bconst(0, 64)
				maxRow := 0
				col := -1
				budget := k >> uint(base)
				long := false
				for i := 0; i < n; i++ {
					hi := 0
					same := i > 0 && col < 60 && (next(3) == 0 || variant == 2)
					if !same {
						left := budget - (n - i) - 1
						if left > 0 && next(2) == 0 {
							hi = next(left + 1)
							hi = min(hi, 40)
						}
						if variant == 2 { // one long unary code
							hi = 0
							if i > 300 && !long {
								hi, long = 300, true
							}
						}
						d := &bv{w: 64}
						free := base
						if variant == 1 && base > 0 {
							free = base - 1 // the low bits end in a constant one
						}
						step := hi<<uint(base) + 1<<uint(base) - 1
						if maxRow+step >= k {
							same = i > 0 && col < 63
							if !same {
								n = i
								break
							}
						} else {
							maxRow += step
							name := fmt.Sprintf("row %d", i)
							need := hi == 0 && i > 0
							if base == 0 || (free == 0 && need) {
								v := uint64(hi) << uint(base)
								if base > 0 {
									v |= 1
								}
								if v == 0 && i > 0 {
									if base == 0 {
										v = 1
									}
								}
								row = s.limit(s.addsub(row, bconst(v, 64), 1), lgK)
							} else {
								w := base
								for v := hi; v > 0; v >>= 1 {
									w++
								}
								prevK, isK := row.konst()
								if isK {
									d = s.source(name, 64, w)
								} else {
									nr := s.source(name, 64, lgK)
									d = s.difference(nr, row, w)
									row = nr
								}
								for j := base; j < w; j++ {
									d.b[j] = int32(hi >> uint(j-base) & 1)
								}
								if hi == 0 {
									d.b[next(base)] = bOne
								}
								if isK && prevK != 0 { // known rows so far: stay with known bits
									for j := 0; j < base; j++ {
										if d.b[j] >= bBase {
											d.b[j] = int32(next(2))
										}
									}
								}
								id := -1
								for j := 0; j < 64; j++ {
									if d.b[j] >= bBase {
										id = int(d.b[j]-bBase) / 64
									}
								}
								if id < 0 { // nothing unknown is left
									kk, _ := d.konst()
									if isK {
										row = bconst(prevK+kk, 64)
									} else {
										row = s.limit(s.addsub(rowBefore(arr, s), bconst(kk, 64), 1), lgK)
									}
								} else {
									s.srcs[id].v = *d
									if isK {
										row = s.limit(s.addsub(bconst(prevK, 64), d, 1), lgK)
									}
								}
							}
							col = -1
						}
					}
					if variant == 2 {
						col++
					} else {
						col += 1 + next(min(63-col, 9))
					}
					if next(8) == 0 && variant != 2 {
						col += next(64 - col)
					}
					v := &bv{w: 64}
					for j := 0; j < 58; j++ {
						v.b[j+6] = row.b[j]
					}
					for j := 0; j < 6; j++ {
						v.b[j] = int32(col >> uint(j) & 1)
					}
					arr.cells = append(arr.cells, v)
				}
				if n == 0 {
					continue
				}
				words := &bObj{name: "words"}
				for i := 0; i < 4*n+200; i++ {
					words.cells = append(words.cells, bconst(0, 64))
				}
				want := append([]bval(nil), arr.cells...)
				res, st := s.run(cf, []bval{bslice{arr, 0, n, n}, bconst(uint64(n), 64), bconst(uint64(base), 64), bslice{words, 0, len(words.cells), len(words.cells)}})
				if st != nil {
					r.add("pairs", key, s.where(st, cf), kindOf(st), "compressing "+key+": "+st.msg)
					continue
				}
				cnt, ok := retConst(res, 0)
				if t, ok2 := res.(btuple); !ok || !ok2 || int(cnt) > len(words.cells) || t[1] != (bnil{}) {
					r.bad("pairs", key, p.Pos(cf.Pos()), "compressing "+key+" fails")
					continue
				}
				out := &bObj{name: "out"}
				for i := 0; i < n; i++ {
					out.cells = append(out.cells, bconst(0, 64))
				}
				c := int(cnt)
				res, st = s.run(df, []bval{bslice{out, 0, n, n}, bconst(uint64(n), 64), bconst(uint64(base), 64), bslice{words, 0, c, c}, bconst(cnt, 64)})
				if st != nil {
					r.add("pairs", key, s.where(st, df), kindOf(st), "uncompressing "+key+": "+st.msg)
					continue
				}
				msg := ""
				if _, ok := res.(bnil); !ok {
					msg = "reports an error"
				}
				for i := 0; i < n && msg == ""; i++ {
					b, ok := out.cells[i].(*bv)
					if !ok || *b != *want[i].(*bv) {
						msg = fmt.Sprintf("yields something else for pair %d", i)
					}
				}
				r.check(msg == "", "pairs", key, p.Pos(df.Pos()), "uncompressing "+key+" "+msg)
			}
		}
	}
}

func rowBefore(arr *bObj, s *bitsim) *bv {
	v := arr.cells[len(arr.cells)-1].(*bv)
	r := &bv{w: 64}
	for j := 0; j < 58; j++ {
		r.b[j] = v.b[j+6]
	}
	return r
}

// c16Flavor: the flavors of compression and decompression, with the coders replaced by their contract.
func c16Flavor(p *Prog, r *Report, glob map[*ssa.Global]*bObj, decT [][]uint64) {
	cf, df := p.Fn("cpc.(CpcCompressedState).compress"), p.Fn("cpc.(CpcCompressedState).uncompress")
	off := p.Fn("cpc.(CpcCompressedState).getWindowOffset")
	if cf == nil || df == nil || off == nil {
		return
	}
	stT := cf.Params[0].Type().Underlying().(*types.Pointer).Elem()
	skT := cf.Params[1].Type().Underlying().(*types.Pointer).Elem()
	var ptT types.Type
	su := skT.Underlying().(*types.Struct)
	for i := 0; i < su.NumFields(); i++ {
		if pt, ok := su.Field(i).Type().(*types.Pointer); ok && strings.Contains(strings.ToLower(su.Field(i).Name()), "table") {
			ptT = pt.Elem()
		}
	}
	if ptT == nil {
		return
	}
	type cfg struct {
		lgK int
		c   uint64
	}
	var cfgs []cfg
	for _, lgK := range []int{4, 5, 8} {
		k := uint64(1) << uint(lgK)
		seen := map[uint64]bool{}
		for c := uint64(1); c < 60*k; c++ {
			if c >= k*27/8 && lgK == 8 && c%(k/16) != 0 {
				continue // one count per phase and offset
			}
			if c < k*27/8 && lgK == 8 && c%4 != 0 {
				continue
			}
			if !seen[c] {
				seen[c] = true
				cfgs = append(cfgs, cfg{lgK, c})
			}
		}
	}
	for _, g := range cfgs {
		k := 1 << uint(g.lgK)
		key := fmt.Sprintf("lgK %d, %d coupons", g.lgK, g.c)
		s := newBitsim(p)
		s.glob = glob
		comp := s.zero(stT).(*bObj)
		cp := bptr{&bObj{cells: []bval{comp}}, 0}
		s.setField(comp, stT, "int", "lgk", bconst(uint64(g.lgK), 64))
		s.setField(comp, stT, "uint64", "coupons", bconst(g.c, 64))
		ov, st := s.run(off, []bval{cp})
		ob, _ := ov.(*bv)
		if st != nil || ob == nil {
			r.undecided("flavor", key, p.Pos(off.Pos()), "the window offset does not follow from the configuration")
			continue
		}
		wo, _ := ob.konst()
		if wo > 56 { // more coupons than there are
			continue
		}
		sparse := g.c*32 < 3*uint64(k)
		hybrid := !sparse && 2*g.c < uint64(k)
		pinned := !sparse && !hybrid && 8*g.c < 27*uint64(k)
		// the pairs outside the window: all columns, rows unknown (hybrid and sparse: rows known)
		pairs := &bObj{name: "pairs"}
		var window bval = bnil{}
		nWin := 0
		win := &bObj{name: "window"}
		if !sparse {
			for i := 0; i < k; i++ {
				b := s.source(fmt.Sprintf("window[%d]", i), 8, 8)
				if hybrid {
					b = bconst(0, 8)
				}
				win.cells = append(win.cells, b)
			}
			window = bslice{win, 0, k, k}
		}
		for col := 0; col < 64; col++ {
			var v *bv
			switch {
			case sparse:
				if uint64(len(pairs.cells)) >= g.c {
					continue
				}
				v = bconst(uint64((col*5%k)<<6|col), 64)
			case hybrid:
				if uint64(len(pairs.cells)+nWin) >= g.c {
					continue
				}
				q := (col + int(g.c)*7) % 64
				if q < 8 {
					w := win.cells[nWin%k].(*bv)
					if w.b[q] == bZero {
						w.b[q] = bOne
						nWin++
					}
					continue
				}
				v = bconst(uint64((len(pairs.cells)%k)<<6|q), 64)
			default:
				if uint64(col) >= wo && uint64(col) < wo+8 {
					continue // inside the window
				}
				v = s.source(fmt.Sprintf("pair in column %d", col), 64, g.lgK+6)
				for j := 0; j < 6; j++ {
					v.b[j] = int32(col >> uint(j) & 1)
				}
			}
			pairs.cells = append(pairs.cells, v)
		}
		if sparse || hybrid { // the count has to match
			cnt := uint64(len(pairs.cells) + nWin)
			if cnt != g.c {
				continue
			}
		}
		n := len(pairs.cells)
		before := append([]bval(nil), pairs.cells...)
		wbefore := append([]bval(nil), win.cells...)
		for i, w := range wbefore {
			c := *w.(*bv)
			wbefore[i] = &c
		}
		newSk := func() *bObj {
			o := s.zero(skT).(*bObj)
			s.setField(o, skT, "int", "lgk", bconst(uint64(g.lgK), 64))
			s.setField(o, skT, "uint64", "coupons", bconst(g.c, 64))
			s.setField(o, skT, "int", "offset", bconst(wo, 64))
			return o
		}
		src, dst := newSk(), newSk()
		pt := s.zero(ptT).(*bObj)
		s.setField(pt, ptT, "int", "numpairs", bconst(uint64(n), 64))
		ptr := bptr{&bObj{cells: []bval{pt}}, 0}
		s.setField(src, skT, "[]byte", "window", window)
		s.setField(src, skT, "[]uint8", "window", window)
		s.setField(src, skT, "*"+typStr(ptT), "table", ptr)
		var sent, got []bval
		var sentW []bval
		sentBase, msg := bval(nil), ""
		var sentTab []uint64
		fail := func(m string) {
			if msg == "" {
				msg = m
			}
		}
		s.model = func(fn *ssa.Function, in []bval) (bval, bool) {
			switch p.FName(norm(fn)) {
			case "cpc.(pairTable).unwrap":
				o := &bObj{name: "unwrapped", cells: append([]bval(nil), pairs.cells...)}
				return btuple{bslice{o, 0, n, n}, bnil{}}, true
			case "cpc.introspectiveInsertionSort":
				return bnil{}, true
			case "cpc.lowLevelCompressPairs":
				a, ok := in[0].(bslice)
				m, ok2 := in[1].(*bv)
				if !ok || !ok2 {
					return nil, false
				}
				c, _ := m.konst()
				if int(c) <= a.len {
					sent = a.snap()[:c]
				}
				sentBase = in[2]
				return btuple{bconst(1, 64), bnil{}}, true
			case "cpc.lowLevelUncompressPairs":
				a, ok := in[0].(bslice)
				m, ok2 := in[1].(*bv)
				if !ok || !ok2 {
					return nil, false
				}
				c, _ := m.konst()
				x, okx := in[2].(*bv)
				y, oky := sentBase.(*bv)
				if !okx || !oky || *x != *y {
					fail("the two directions use different numbers of base bits")
				}
				if int(c) != len(sent) || a.len < len(sent) {
					fail("the two directions disagree about the number of pairs")
					return bnil{}, true
				}
				for i, v := range sent {
					a.o.cells[a.off+i] = v
				}
				return bnil{}, true
			case "cpc.lowLevelCompressBytes":
				a, ok := in[0].(bslice)
				if !ok {
					return nil, false
				}
				sentW = a.snap()
				sentTab, _ = tableOf(in[2])
				return bconst(1, 64), true
			case "cpc.lowLevelUncompressBytes":
				a, ok := in[0].(bslice)
				if !ok {
					return nil, false
				}
				d, ok := tableOf(in[2])
				if !ok || len(sentTab) == 0 {
					fail("no decoding table is chosen")
				} else if m := inverseCode(sentTab, d); m != "" {
					fail("the decoding table chosen " + m)
				}
				if a.len != len(sentW) {
					fail("the two directions disagree about the window size")
					return bnil{}, true
				}
				for i, v := range sentW {
					a.o.cells[a.off+i] = v
				}
				return bnil{}, true
			case "cpc.newInstanceFromPairsArray":
				a, ok := in[0].(bslice)
				m, ok2 := in[1].(*bv)
				if !ok || !ok2 {
					return nil, false
				}
				c, _ := m.konst()
				if int(c) <= a.len {
					got = a.snap()[:c]
				}
				return btuple{bptr{&bObj{cells: []bval{s.zero(ptT)}}, 0}, bnil{}}, true
			}
			return nil, false
		}
		sp, dp := bptr{&bObj{cells: []bval{src}}, 0}, bptr{&bObj{cells: []bval{dst}}, 0}
		res, st := s.run(cf, []bval{cp, sp})
		if st != nil {
			r.add("flavor", key, s.where(st, cf), kindOf(st), "compressing "+key+": "+st.msg)
			continue
		}
		if _, ok := res.(bnil); !ok {
			r.bad("flavor", key, p.Pos(cf.Pos()), "compressing "+key+" fails")
			continue
		}
		res, st = s.run(df, []bval{cp, dp})
		if st != nil {
			r.add("flavor", key, s.where(st, df), kindOf(st), "uncompressing "+key+": "+st.msg)
			continue
		}
		if _, ok := res.(bnil); !ok {
			fail("uncompressing fails")
		}
		if len(got) != n {
			fail(fmt.Sprintf("%d pairs come back instead of %d", len(got), n))
		}
		same := func(a, b bval) bool {
			x, ok1 := a.(*bv)
			y, ok2 := b.(*bv)
			return ok1 && ok2 && *x == *y
		}
		for i := 0; i < n && msg == ""; i++ {
			if !contains(got, before[i], same) {
				fail(fmt.Sprintf("a pair in column %d does not come back", colOf(before[i])))
			}
		}
		if !sparse {
			w, _ := s.getField(dst, skT, "[]byte", "window").(bslice)
			if w.o == nil {
				w, _ = s.getField(dst, skT, "[]uint8", "window").(bslice)
			}
			if w.o == nil || w.len != k {
				fail("no window comes back")
			}
			for i := 0; i < k && msg == ""; i++ {
				if !same(w.o.cells[w.off+i], wbefore[i]) {
					fail(fmt.Sprintf("row %d of the window does not come back", i))
				}
			}
		}
		_ = pinned
		r.Counts["dataflow steps"] += s.steps
		r.check(msg == "", "flavor", key, p.Pos(df.Pos()), key+": "+msg)
	}
}

func colOf(v bval) int {
	c := 0
	if b, ok := v.(*bv); ok {
		for j := 0; j < 6; j++ {
			if b.b[j] == bOne {
				c |= 1 << uint(j)
			}
		}
	}
	return c
}

func contains(l []bval, x bval, same func(a, b bval) bool) bool {
	for _, y := range l {
		if same(x, y) {
			return true
		}
	}
	return false
}
