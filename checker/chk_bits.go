package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C08"] = chkC08 }

func (s *bitsim) where(st *bstop, dflt *ssa.Function) string {
	if st != nil && st.pos != token.NoPos {
		return s.p.Pos(st.pos)
	}
	return s.p.Pos(dflt.Pos())
}

func (s *bitsim) vals(name string, n, w, bitsN int) bslice {
	o := &bObj{name: name}
	for i := 0; i < n; i++ {
		o.cells = append(o.cells, s.source(fmt.Sprintf("%s[%d]", name, i), w, bitsN))
	}
	return bslice{o, 0, n, n}
}

func (a bslice) bit(i, j int) int32 {
	if b, ok := a.o.cells[a.off+i].(*bv); ok {
		return b.b[j]
	}
	return bTop
}

func (a bslice) snap() []bval { return append([]bval(nil), a.o.cells[a.off:a.off+a.len]...) }

// streamBit locates bit j (0 = least significant) of value i of width n in a big-endian bit stream.
func streamBit(i, j, n, offset int) (by, bit int) {
	pos := offset + i*n + (n - 1 - j)
	return pos / 8, 7 - pos%8
}

func retConst(v bval, i int) (uint64, bool) {
	if b, ok := v.(*bv); ok && i == 0 {
		return b.konst()
	}
	t, ok := v.(btuple)
	if !ok || i >= len(t) {
		return 0, false
	}
	b, ok := t[i].(*bv)
	if !ok {
		return 0, false
	}
	return b.konst()
}

func chkC08(p *Prog, r *Report) {
	r.Explain = "Bit-provenance dataflow: every integer is a vector of bits, each 0, 1, 'bit j of value i' or unknown; addresses, loop counters and branches are followed by constant propagation for each width and bit offset. block: packing eight values of a width fills exactly that many bytes, value after value, most significant bit first, and unpacking inverts it. single: the single-value routines use the same layout from every bit offset. refused: widths outside 1..63 are refused without touching the buffers. stream: an image the compressed encoder writes and the decoder and the wrapped iterator read back holds the packed hashes, for the listed numbers of hashes and every width."
	pk, up := p.Fn("theta.packBitsBlock8"), p.Fn("theta.unpackBitsBlock8")
	ps, us := p.Fn("theta.packBits"), p.Fn("theta.unpackBits")
	u8 := func(n int) bval { return bconst(uint64(n), 8) }
	if pk != nil && up != nil {
		for n := 1; n <= 63; n++ {
			key := fmt.Sprintf("width %d", n)
			func() {
				s := newBitsim(p)
				vals, buf := s.vals("values", 8, 64, n), s.vals("old", n, 8, 8)
				vs := vals.snap()
				res, st := s.run(pk, []bval{vals, buf, u8(n)})
				r.Counts["dataflow steps"] += s.steps
				if st != nil {
					r.add("block", "pack "+key, s.where(st, pk), kindOf(st), "packing a block of "+key+": "+st.msg)
					return
				}
				msg := ""
				if _, isNil := res.(bnil); !isNil {
					msg = "reports an error for a supported width"
				}
				for i := 0; i < 8 && msg == ""; i++ {
					if vals.o.cells[i] != vs[i] {
						msg = fmt.Sprintf("changes values[%d], its input", i)
					}
					for j := 0; j < n && msg == ""; j++ {
						by, bit := streamBit(i, j, n, 0)
						want := bBase + int32((i+1)*64+j)
						if got := buf.bit(by, bit); got != want {
							msg = fmt.Sprintf("bit %d of byte %d holds %s instead of %s", bit, by, s.bitName(got), s.bitName(want))
						}
					}
				}
				r.check(msg == "", "block", "pack "+key, p.Pos(worker(s, pk).Pos()), "packing a block of "+key+" "+msg)
			}()
			func() {
				s := newBitsim(p)
				buf, vals := s.vals("bytes", n, 8, 8), s.vals("old", 8, 64, 64)
				bs := buf.snap()
				res, st := s.run(up, []bval{vals, buf, u8(n)})
				r.Counts["dataflow steps"] += s.steps
				if st != nil {
					r.add("block", "unpack "+key, s.where(st, up), kindOf(st), "unpacking a block of "+key+": "+st.msg)
					return
				}
				msg := ""
				if _, isNil := res.(bnil); !isNil {
					msg = "reports an error for a supported width"
				}
				for i := range bs {
					if msg == "" && buf.o.cells[i] != bs[i] {
						msg = fmt.Sprintf("changes byte %d of its input", i)
					}
				}
				for i := 0; i < 8 && msg == ""; i++ {
					for j := 0; j < 64 && msg == ""; j++ {
						want := bZero
						if j < n {
							by, bit := streamBit(i, j, n, 0)
							want = bBase + int32((by+1)*64+bit)
						}
						if got := vals.bit(i, j); got != want {
							msg = fmt.Sprintf("bit %d of value %d holds %s instead of %s", j, i, s.bitName(got), s.bitName(want))
						}
					}
				}
				r.check(msg == "", "block", "unpack "+key, p.Pos(worker(s, up).Pos()), "unpacking a block of "+key+" "+msg)
			}()
		}
		for _, fn := range []*ssa.Function{pk, up} {
			bad := ""
			for n := 0; n <= 255 && bad == ""; n++ {
				if n >= 1 && n <= 63 {
					continue
				}
				s := newBitsim(p)
				vals, buf := s.vals("values", 8, 64, 64), s.vals("old", 256, 8, 8)
				vs, bs := vals.snap(), buf.snap()
				res, st := s.run(fn, []bval{vals, buf, u8(n)})
				_, isErr := res.(biface)
				if st != nil || !isErr {
					bad = fmt.Sprintf("width %d is accepted", n)
				}
				for i := range vs {
					if vals.o.cells[i] != vs[i] {
						bad = fmt.Sprintf("width %d changes the values", n)
					}
				}
				for i := range bs {
					if buf.o.cells[i] != bs[i] {
						bad = fmt.Sprintf("width %d changes the bytes", n)
					}
				}
			}
			r.check(bad == "", "refused", p.FName(fn), p.Pos(fn.Pos()), bad)
		}
	}
	if ps != nil && us != nil {
		for n := 1; n <= 63; n++ {
			for off := 0; off < 8; off++ {
				key := fmt.Sprintf("width %d at offset %d", n, off)
				size := (off + n + 7) / 8
				end := off + n
				s := newBitsim(p)
				val := s.source("value", 64, n)
				buf := &bObj{name: "bytes"}
				first := s.source("earlier", 8, 8)
				for j := 0; j < 8-off; j++ {
					first.b[j] = bZero
				}
				buf.cells = append(buf.cells, s.source("before", 8, 8), first)
				for i := 1; i < size; i++ {
					buf.cells = append(buf.cells, bconst(0, 8))
				}
				before := buf.cells[0]
				keep := *first
				sl := bslice{buf, 0, len(buf.cells), len(buf.cells)}
				res, st := s.run(ps, []bval{val, u8(n), sl, bconst(1, 64), u8(off)})
				r.Counts["dataflow steps"] += s.steps
				msg := ""
				if st != nil {
					r.add("single", "pack "+key, s.where(st, ps), kindOf(st), "packing one value of "+key+": "+st.msg)
				} else {
					if buf.cells[0] != before {
						msg = "changes the byte before its position"
					}
					for j := 8 - off; j < 8 && msg == ""; j++ {
						if sl.bit(1, j) != keep.b[j] {
							msg = "overwrites the value packed before it"
						}
					}
					for j := 0; j < n && msg == ""; j++ {
						by, bit := streamBit(0, j, n, off)
						want := bBase + int32(64+j)
						if got := sl.bit(1+by, bit); got != want {
							msg = fmt.Sprintf("bit %d of byte %d holds %s instead of %s", bit, by, s.bitName(got), s.bitName(want))
						}
					}
					for k := end; k < size*8 && msg == ""; k++ {
						if got := sl.bit(1+k/8, 7-k%8); got != bZero {
							msg = fmt.Sprintf("leaves %s after the value", s.bitName(got))
						}
					}
					i, ok1 := retConst(res, 0)
					o, ok2 := retConst(res, 1)
					if msg == "" && !(ok1 && ok2 && i == uint64(1+end/8) && o == uint64(end%8)) {
						msg = "returns a position other than the first free bit"
					}
					r.check(msg == "", "single", "pack "+key, p.Pos(ps.Pos()), "packing one value of "+key+" "+msg)
				}
				s = newBitsim(p)
				bs := s.vals("bytes", size+1, 8, 8)
				snap := bs.snap()
				res, st = s.run(us, []bval{u8(n), bs, bconst(1, 64), u8(off)})
				r.Counts["dataflow steps"] += s.steps
				if st != nil {
					r.add("single", "unpack "+key, s.where(st, us), kindOf(st), "unpacking one value of "+key+": "+st.msg)
					continue
				}
				msg = ""
				for i := range snap {
					if bs.o.cells[i] != snap[i] {
						msg = "changes its input"
					}
				}
				t, _ := res.(btuple)
				var got *bv
				if len(t) == 3 {
					got, _ = t[0].(*bv)
				}
				if got == nil {
					msg = "has no numeric result"
				}
				for j := 0; j < 64 && msg == ""; j++ {
					want := bZero
					if j < n {
						by, bit := streamBit(0, j, n, off)
						want = bBase + int32((by+2)*64+bit)
					}
					if got.b[j] != want {
						msg = fmt.Sprintf("bit %d of the value holds %s instead of %s", j, s.bitName(got.b[j]), s.bitName(want))
					}
				}
				i, ok1 := retConst(res, 1)
				o, ok2 := retConst(res, 2)
				if msg == "" && !(ok1 && ok2 && i == uint64(1+end/8) && o == uint64(end%8)) {
					msg = "returns a position other than the first unread bit"
				}
				r.check(msg == "", "single", "unpack "+key, p.Pos(us.Pos()), "unpacking one value of "+key+" "+msg)
			}
		}
	}
	c08Stream(p, r)
	r.floor("block", 126)
	r.floor("single", 1008)
	r.floor("refused", 2)
	r.floor("stream", 1000)
}

func kindOf(st *bstop) string {
	if st.kind == "panic" {
		return "violated"
	}
	return "undecided"
}

// worker is the function the dispatcher handed the block to.
func worker(s *bitsim, d *ssa.Function) *ssa.Function {
	for f := range s.calls {
		if f != d && f.Pkg == d.Pkg {
			return f
		}
	}
	return d
}

// setField stores v in the field of struct object o whose name contains hint and whose type is t.
func (s *bitsim) setField(o *bObj, st types.Type, t string, hint string, v bval) bool {
	u := st.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if typStr(f.Type()) == t && strings.Contains(strings.ToLower(f.Name()), hint) {
			o.cells[i] = v
			return true
		}
	}
	for i := 0; i < u.NumFields(); i++ {
		if in, ok := o.cells[i].(*bObj); ok && u.Field(i).Embedded() {
			if _, ok := u.Field(i).Type().Underlying().(*types.Struct); ok && s.setField(in, u.Field(i).Type(), t, hint, v) {
				return true
			}
		}
	}
	return false
}

func (s *bitsim) getField(o *bObj, st types.Type, t string, hint string) bval {
	u := st.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if typStr(f.Type()) == t && strings.Contains(strings.ToLower(f.Name()), hint) {
			return o.cells[i]
		}
	}
	return nil
}

func c08Stream(p *Prog, r *Report) {
	enc, newEnc := p.Fn("theta.(Encoder).Encode"), p.Fn("theta.NewEncoder")
	dec, wrap := p.Fn("theta.Decode"), p.Fn("theta.WrapCompactSketch")
	all := p.Fn("theta.(WrappedCompactSketch).All")
	seedFn := p.Fn("internal.ComputeSeedHash")
	if enc == nil || newEnc == nil || dec == nil || wrap == nil || all == nil || seedFn == nil {
		return
	}
	skT := enc.Params[1].Type().Underlying().(*types.Pointer).Elem()
	var counts []int
	for i := 1; i <= 17; i++ {
		counts = append(counts, i)
	}
	if os.Getenv("VERIF_TIER") == "thorough" {
		for i := 18; i <= 48; i++ {
			counts = append(counts, i)
		}
	}
	for n := 1; n <= 63; n++ {
		cs := counts
		if n == 10 {
			cs = append(append([]int(nil), cs...), 255, 258)
		}
		if n == 22 {
			cs = append(append([]int(nil), cs...), 66051)
		}
		for ci, cnt := range cs {
			key := fmt.Sprintf("%d hashes, width %d", cnt, n)
			s := newBitsim(p)
			const seed = 9001
			hv, st := s.run(seedFn, []bval{bconst(seed, 64)})
			var hash *bv
			switch x := hv.(type) {
			case btuple:
				hash, _ = x[0].(*bv)
			case *bv:
				hash = x
			}
			if st != nil || hash == nil {
				m := "no seed hash"
				if st != nil {
					m = st.msg
				}
				r.undecided("stream", key, s.where(st, seedFn), m)
				return
			}
			// consecutive hashes differ by at most n bits; the last difference has its top bit set, so it fixes the width
			entries := &bObj{name: "hashes"}
			var prev *bv
			for i := 0; i < cnt; i++ {
				w := 63
				if i == 0 {
					w = n
				}
				if n == 1 && i == cnt-1 && i > 0 { // the difference is 1
					entries.cells = append(entries.cells, s.addsub(prev, bconst(1, 64), 1))
					continue
				}
				e := s.source(fmt.Sprintf("hash %d", i), 64, w)
				d := e
				if i > 0 {
					d = s.difference(e, prev, n)
				}
				if i == cnt-1 {
					d.b[n-1] = bOne
					s.srcs[len(s.srcs)-1].v = *d
				}
				prev = e
				entries.cells = append(entries.cells, e)
			}
			want := append([]bval(nil), entries.cells...)
			sk := s.zero(skT).(*bObj)
			var theta *bv
			if (ci+n)%2 == 0 && cnt > 1 {
				theta = bconst(1<<63-1, 64)
			} else {
				theta = s.source("theta", 64, 62)
			}
			ok := s.setField(sk, skT, "[]uint64", "", bslice{entries, 0, cnt, cnt}) &&
				s.setField(sk, skT, "uint64", "", theta) &&
				s.setField(sk, skT, "uint16", "", hash) &&
				s.setField(sk, skT, "bool", "order", bconst(1, 1))
			if !ok {
				r.undecided("stream", key, p.Pos(enc.Pos()), "unfamiliar sketch fields")
				return
			}
			var image []bval
			w := biface{v: bunk{"writer"}, hook: func(name string, in []bval) (bval, bool) {
				if sl, ok := in[0].(bslice); ok && name == "Write" {
					image = append(image, sl.snap()...)
					return btuple{bconst(uint64(sl.len), 64), bnil{}}, true
				}
				return nil, false
			}}
			e, st := s.run(newEnc, []bval{w, bconst(1, 1)})
			if st != nil {
				r.undecided("stream", key, s.where(st, newEnc), st.msg)
				return
			}
			eo := bptr{&bObj{cells: []bval{bmem(e)}}, 0}
			res, st := s.run(enc, []bval{eo, bptr{&bObj{cells: []bval{sk}}, 0}})
			if st != nil {
				r.add("stream", key, s.where(st, enc), kindOf(st), "encoding "+key+": "+st.msg)
				continue
			}
			if _, ok := res.(bnil); !ok {
				r.bad("stream", key, p.Pos(enc.Pos()), "encoding "+key+" returns an error")
				continue
			}
			in := bslice{&bObj{name: "image", cells: image}, 0, len(image), len(image)}
			res, st = s.run(dec, []bval{in, bconst(seed, 64)})
			if st != nil {
				r.add("stream", key, s.where(st, dec), kindOf(st), "decoding "+key+": "+st.msg)
				continue
			}
			msg := ""
			t, _ := res.(btuple)
			if len(t) != 2 {
				continue
			}
			if _, ok := t[1].(bnil); !ok {
				msg = "the decoder refuses the image the encoder wrote"
			} else if q, ok := t[0].(bptr); ok {
				o := q.o.cells[q.i].(*bObj)
				got, _ := s.getField(o, skT, "[]uint64", "").(bslice)
				if got.o == nil || got.len != cnt {
					msg = "the decoded sketch has another number of hashes"
				}
				for i := 0; i < cnt && msg == ""; i++ {
					a, _ := got.o.cells[got.off+i].(*bv)
					b := want[i].(*bv)
					if a == nil || *a != *b {
						msg = fmt.Sprintf("hash %d does not come back", i)
					}
				}
				if th, _ := s.getField(o, skT, "uint64", "").(*bv); msg == "" && (th == nil || *th != *theta) {
					msg = "theta does not come back"
				}
			}
			if msg == "" {
				wr, st := s.run(wrap, []bval{in, bconst(seed, 64)})
				if st != nil {
					r.add("stream", key, s.where(st, wrap), kindOf(st), "wrapping "+key+": "+st.msg)
					continue
				}
				wt, _ := wr.(btuple)
				if len(wt) == 2 {
					fnv, st := s.run(all, []bval{wt[0]})
					bf, ok := fnv.(bfunc)
					if st == nil && ok {
						var seen []bval
						y := bfunc{hook: func(in []bval) bval {
							seen = append(seen, in[0])
							return bconst(1, 1)
						}}
						func() {
							defer func() {
								if e := recover(); e != nil {
									b, ok := e.(bstop)
									if !ok {
										panic(e)
									}
									msg = "the wrapped iterator: " + b.msg
								}
							}()
							s.call(bf.fn, []bval{y}, bf.free, bf.tm)
						}()
						if msg == "" && len(seen) != cnt {
							msg = "the wrapped iterator yields another number of hashes"
						}
						for i := 0; i < cnt && msg == ""; i++ {
							a, _ := seen[i].(*bv)
							if a == nil || *a != *want[i].(*bv) {
								msg = fmt.Sprintf("the wrapped iterator yields something else for hash %d", i)
							}
						}
					}
				}
			}
			r.Counts["dataflow steps"] += s.steps
			r.check(msg == "", "stream", key, p.Pos(enc.Pos()), key+": "+msg)
		}
	}
}
