package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const seedHash = 0x93cc

func cat(l ...any) (r []lfld) {
	for _, x := range l {
		switch y := x.(type) {
		case lfld:
			r = append(r, y)
		case []lfld:
			r = append(r, y...)
		}
	}
	return
}

func layouts() []*layout {
	var out []*layout
	out = append(out, thetaLayouts()...)
	out = append(out, tupleLayouts()...)
	out = append(out, kllLayouts()...)
	out = append(out, freqLayouts()...)
	out = append(out, countLayouts()...)
	out = append(out, tdigestLayouts()...)
	out = append(out, bloomLayouts()...)
	out = append(out, samplingLayouts()...)
	out = append(out, hllLayouts()...)
	out = append(out, cpcLayouts()...)
	return out
}

func thetaLayouts() []*layout {
	enc := func(c *lctx) bval {
		w, bytes := c.writer()
		e := c.fn("theta.NewEncoder", w, bconst(0, 1))
		et := c.retType("theta.NewEncoder", 0)
		r := c.method(bptr{&bObj{cells: []bval{bmem(e)}}, 0}, types.NewPointer(et), "Encode", c.sk)
		c.ok(btuple{bnil{}, r}, "Encode")
		return bytes()
	}
	u8 := func(v uint64) lfld { return kf(1, v) }
	hdr := func(pre, flags uint64) []lfld {
		return []lfld{u8(pre), u8(3), u8(3), kf(2, 0), u8(flags), kf(2, seedHash)}
	}
	h := func(n string) lfld { return vlo(n, 8, 61, 1<<61) } // retained hashes are not zero
	// a count that needs three bytes: the entries but the last are of no interest
	big := cat(hdr(2, 0x1a), kf(4, 66000), kf(4, 0))
	for i := 0; i < 65999; i++ {
		big = append(big, kf(8, uint64(i+1)))
	}
	big = append(big, h("last"))
	getW := func(g ...string) []string { return g }
	out := []*layout{
		{name: "theta many entries", dec: "theta.Decode", img: big, enc: enc, steps: 40_000_000, get: []string{"NumRetained()=#66000", "SerializedSizeBytes(false)=size"}},
		{name: "theta empty", dec: "theta.Decode", img: hdr(1, 0x1e), enc: enc,
			get: []string{"IsEmpty()=true", "NumRetained()=#0", "Theta64()=#9223372036854775807", "IsOrdered()=true", "SeedHash()=#37836", "SerializedSizeBytes(false)=size", "All()=[]"}},
		{name: "theta single", dec: "theta.Decode", img: cat(hdr(1, 0x1a), h("e0")), enc: enc,
			get: []string{"IsEmpty()=false", "NumRetained()=#1", "Theta64()=#9223372036854775807", "IsOrdered()=true", "SeedHash()=#37836", "SerializedSizeBytes(false)=size", "All()=[e0]"}},
		{name: "theta exact", dec: "theta.Decode", img: cat(hdr(2, 0x1a), kf(4, 3), kf(4, 0), h("e0"), h("e1"), h("e2")), enc: enc,
			get: []string{"IsEmpty()=false", "NumRetained()=#3", "Theta64()=#9223372036854775807", "IsOrdered()=true", "SeedHash()=#37836", "SerializedSizeBytes(false)=size", "All()=[e0 e1 e2]"}},
		{name: "theta exact unordered", dec: "theta.Decode", img: cat(hdr(2, 0x0a), kf(4, 2), kf(4, 0), h("e0"), h("e1")), enc: enc,
			get: []string{"IsEmpty()=false", "NumRetained()=#2", "IsOrdered()=false", "All()=[e0 e1]"}},
		{name: "theta estimation", dec: "theta.Decode", img: cat(hdr(3, 0x1a), kf(4, 3), kf(4, 0), vb("theta", 8, 62), h("e0"), h("e1"), h("e2")), enc: enc,
			get: []string{"IsEmpty()=false", "NumRetained()=#3", "Theta64()=theta", "IsOrdered()=true", "SerializedSizeBytes(false)=size", "All()=[e0 e1 e2]"}},
		{name: "theta estimation single", dec: "theta.Decode", img: cat(hdr(3, 0x1a), kf(4, 1), kf(4, 0), vb("theta", 8, 62), h("e0")), enc: enc,
			get: []string{"IsEmpty()=false", "NumRetained()=#1", "Theta64()=theta", "IsOrdered()=true", "SerializedSizeBytes(false)=size", "All()=[e0]"}},
		{name: "theta estimation without entries", dec: "theta.Decode", img: cat(hdr(3, 0x1a), kf(4, 0), kf(4, 0), vb("theta", 8, 62)), enc: enc,
			get: []string{"IsEmpty()=false", "NumRetained()=#0", "Theta64()=theta", "SerializedSizeBytes(false)=size", "All()=[]"}},
		// older versions are only read
		{name: "theta version 2 empty", dec: "theta.Decode", img: cat(u8(1), u8(2), u8(3), kf(3, 0), kf(2, seedHash)), get: []string{"IsEmpty()=true", "NumRetained()=#0", "Theta64()=#9223372036854775807"}},
		{name: "theta version 2 exact", dec: "theta.Decode", img: cat(u8(2), u8(2), u8(3), kf(3, 0), kf(2, seedHash), kf(4, 2), kf(4, 0), h("e0"), h("e1")),
			get: getW("IsEmpty()=false", "NumRetained()=#2", "Theta64()=#9223372036854775807", "All()=[e0 e1]", "SeedHash()=#37836")},
		{name: "theta version 2 estimation", dec: "theta.Decode", img: cat(u8(3), u8(2), u8(3), kf(3, 0), kf(2, seedHash), kf(4, 2), kf(4, 0), vb("theta", 8, 62), h("e0"), h("e1")),
			get: getW("IsEmpty()=false", "NumRetained()=#2", "Theta64()=theta", "All()=[e0 e1]", "SeedHash()=#37836")},
		{name: "theta version 1", dec: "theta.Decode", img: cat(u8(3), u8(1), u8(3), kf(5, 0), kf(4, 2), kf(4, 0), vb("theta", 8, 62), h("e0"), h("e1")),
			get: getW("IsEmpty()=false", "NumRetained()=#2", "Theta64()=theta", "All()=[e0 e1]", "SeedHash()=#37836")},
	}
	for _, l := range out[1:] {
		w := *l
		w.name, w.dec, w.enc = "wrapped "+l.name, "theta.WrapCompactSketch", nil
		w.get = nil
		for _, g := range l.get {
			if g[:4] != "Seri" {
				w.get = append(w.get, g)
			}
		}
		out = append(out, &w)
	}
	return out
}

// readN follows a read of n bytes from an io.Reader and returns them as one value.
func (c *lctx) readN(r bval, n int) bval {
	o := &bObj{}
	for i := 0; i < n; i++ {
		o.cells = append(o.cells, bconst(0, 8))
	}
	c.rerr = nil
	if t, ok := c.method(r, nil, "Read", bslice{o, 0, n, n}).(btuple); ok && len(t) == 2 {
		if _, none := t[1].(bnil); !none {
			c.rerr = t[1]
		} else if got, ok := t[0].(*bv); ok {
			if k, ok := got.konst(); ok && int(k) < n {
				c.rerr = c.s.errVal("unexpected EOF")
			}
		}
	}
	v := &bv{w: 8 * n}
	for i := 0; i < n; i++ {
		b, ok := o.cells[i].(*bv)
		if !ok {
			return bunk{"read"}
		}
		copy(v.b[8*i:8*i+8], b.b[:8])
	}
	return v
}

func (c *lctx) writeN(w bval, v bval, n int) {
	o := &bObj{}
	x, ok := v.(*bv)
	for i := 0; i < n; i++ {
		b := &bv{w: 8}
		for j := range b.b[:8] {
			b.b[j] = bTop
		}
		if ok {
			copy(b.b[:8], x.b[8*i:8*i+8])
		}
		o.cells = append(o.cells, b)
	}
	c.method(w, nil, "Write", bslice{o, 0, n, n})
}

func tupleLayouts() []*layout {
	u8 := func(v uint64) lfld { return kf(1, v) }
	hdr := func(pre, flags uint64) []lfld {
		return []lfld{u8(pre), u8(3), u8(9), u8(1), u8(0), u8(flags), kf(2, seedHash)}
	}
	h := func(n string) lfld { return vlo(n, 8, 61, 1<<61) } // retained hashes are not zero
	read := func(c *lctx, i int, t types.Type) bval {
		if _, ok := t.Underlying().(*types.Signature); ok {
			return bfunc{hook: func(a []bval) bval {
				v := c.readN(a[0], 8)
				if c.rerr != nil {
					return btuple{v, c.rerr}
				}
				return btuple{v, bnil{}}
			}}
		}
		return nil
	}
	enc := func(c *lctx) bval {
		w, bytes := c.writer()
		e := c.fn("tuple.NewEncoder", w, bfunc{hook: func(a []bval) bval { c.writeN(a[0], a[1], 8); return bnil{} }})
		et := c.retType("tuple.NewEncoder", 0)
		r := c.method(bptr{&bObj{cells: []bval{bmem(e)}}, 0}, types.NewPointer(et), "Encode", c.sk)
		c.ok(btuple{bnil{}, r}, "Encode")
		return bytes()
	}
	e := func(i string) []lfld { return []lfld{h("e" + i), vf("s"+i, 8)} }
	out := []*layout{
		{name: "tuple empty", img: hdr(1, 0x1e), get: []string{"IsEmpty()=true", "NumRetained()=#0", "Theta64()=#9223372036854775807", "IsOrdered()=true", "SeedHash()=#37836", "All()=[]"}},
		{name: "tuple single", img: cat(hdr(1, 0x1a), e("0")), get: []string{"IsEmpty()=false", "NumRetained()=#1", "Theta64()=#9223372036854775807", "IsOrdered()=true", "All()=[e0 s0]"}},
		{name: "tuple exact", img: cat(hdr(2, 0x1a), kf(4, 2), kf(4, 0), e("0"), e("1")), get: []string{"IsEmpty()=false", "NumRetained()=#2", "Theta64()=#9223372036854775807", "IsOrdered()=true", "SeedHash()=#37836", "All()=[e0 s0 e1 s1]"}},
		{name: "tuple exact unordered", img: cat(hdr(2, 0x0a), kf(4, 2), kf(4, 0), e("0"), e("1")), get: []string{"IsOrdered()=false", "All()=[e0 s0 e1 s1]"}},
		{name: "tuple estimation", img: cat(hdr(3, 0x1a), kf(4, 2), kf(4, 0), vb("theta", 8, 62), e("0"), e("1")), get: []string{"IsEmpty()=false", "NumRetained()=#2", "Theta64()=theta", "All()=[e0 s0 e1 s1]"}},
		{name: "tuple estimation without entries", img: cat(hdr(3, 0x1a), kf(4, 0), kf(4, 0), vb("theta", 8, 62)), get: []string{"IsEmpty()=false", "NumRetained()=#0", "Theta64()=theta", "All()=[]"}},
	}
	out = append(out, &layout{name: "tuple many entries", steps: 60_000_000, img: cat(hdr(2, 0x1a), kf(4, 66000), kf(4, 0), many(66000, func(i int) []lfld { return []lfld{kf(8, uint64(i+1)), kf(8, 5)} })), get: []string{"NumRetained()=#66000"}})
	for _, l := range out {
		l.dec, l.enc, l.args = "tuple.Decode", enc, read
	}
	// an array of two numbers per entry: all hashes first, then all values
	aenc := func(c *lctx) bval {
		w, bytes := c.writer()
		e := c.fn("tuple.NewArrayOfNumbersSketchEncoder", w)
		et := c.retType("tuple.NewArrayOfNumbersSketchEncoder", 0)
		r := c.method(bptr{&bObj{cells: []bval{bmem(e)}}, 0}, types.NewPointer(et), "Encode", c.sk)
		c.ok(btuple{bnil{}, r}, "Encode")
		return bytes()
	}
	ah := func(flags uint64, n uint64) []lfld {
		return []lfld{u8(1), u8(1), u8(9), u8(3), u8(flags), u8(n), kf(2, seedHash)}
	}
	for _, t := range []types.BasicKind{types.Float64, types.Int64, types.Int32} {
		t := types.Typ[t]
		w := 8
		if t.Kind() == types.Int32 {
			w = 4
		}
		pre := ""
		if t.Kind() == types.Float64 {
			pre = "f:"
		}
		values := func(c *lctx) {
			// the summaries hold the values in order
			f := c.method(c.sk, c.skT, "All")
			b, ok := f.(bfunc)
			if !ok {
				c.fail("All is unknown")
				return
			}
			var got []string
			c.s.call(b.fn, []bval{bfunc{hook: func(a []bval) bval {
				i := len(got)
				got = append(got, "")
				c.same("hash", a[0], []string{"e0", "e1", "e2"}[i])
				v := c.method(a[1], c.p.aonSummary(t), "Values")
				c.sequence("Values", v, []string{pre + "v" + string(rune('0'+i)) + "0", pre + "v" + string(rune('0'+i)) + "1"})
				return bconst(1, 1)
			}}}, b.free, b.tm)
			if len(got) != 2 {
				c.fail("All yields %d entries instead of 2", len(got))
			}
		}
		vals := []lfld{vf("v00", w), vf("v01", w), vf("v10", w), vf("v11", w)}
		for _, l := range []*layout{
			{name: "array-of-numbers empty", img: cat(ah(0x14, 2), kf(8, 1<<63-1)), get: []string{"IsEmpty()=true", "NumRetained()=#0", "Theta64()=#9223372036854775807", "NumValuesInSummary()=#2", "SeedHash()=#37836", "All()=[]"}},
			{name: "array-of-numbers without entries", img: cat(ah(0x10, 3), vb("theta", 8, 62)), get: []string{"IsEmpty()=false", "NumRetained()=#0", "Theta64()=theta", "NumValuesInSummary()=#3", "All()=[]"}},
			{name: "array-of-numbers exact", img: cat(ah(0x18, 2), kf(8, 1<<63-1), kf(4, 2), kf(4, 0), h("e0"), h("e1"), vals), get: []string{"IsEmpty()=false", "NumRetained()=#2", "IsOrdered()=true", "Theta64()=#9223372036854775807"}, after: values},
			{name: "array-of-numbers estimation", img: cat(ah(0x08, 2), vb("theta", 8, 62), kf(4, 2), kf(4, 0), h("e0"), h("e1"), vals), get: []string{"IsEmpty()=false", "NumRetained()=#2", "IsOrdered()=false", "Theta64()=theta"}, after: values},
		} {
			l.name += " " + t.Name()
			l.dec, l.enc, l.tm = "tuple.DecodeArrayOfNumbersCompactSketch", aenc, t
			out = append(out, l)
		}
		if w == 4 {
			out = append(out, &layout{name: "array-of-numbers many entries int32", dec: "tuple.DecodeArrayOfNumbersCompactSketch", enc: aenc, tm: t, steps: 40_000_000,
				img: cat(ah(0x18, 1), kf(8, 1<<63-1), kf(4, 300), kf(4, 0), many(300, func(i int) []lfld { return []lfld{kf(8, uint64(i+1))} }), many(300, func(i int) []lfld { return []lfld{kf(4, 5)} })),
				get: []string{"NumRetained()=#300", "NumValuesInSummary()=#1"}})
		}
	}
	return out
}

func (p *Prog) aonSummary(t types.Type) types.Type {
	o := p.SPkgs["tuple"].Type("ArrayOfNumbersSummary")
	if o == nil {
		return types.Typ[types.Invalid]
	}
	r, err := types.Instantiate(nil, o.Type(), []types.Type{t}, false)
	if err != nil {
		return types.Typ[types.Invalid]
	}
	return types.NewPointer(r)
}

// itemKinds are the item types the library itself can serialize.
type itemKind struct {
	t     types.Type
	serde string
	hash  string
	item  func(name string) []lfld
	want  func(name string) string
}

func itemKinds() []itemKind {
	num := func(name string) []lfld { return []lfld{vf(name, 8)} }
	num4 := func(name string) []lfld { return []lfld{vf(name, 4)} }
	return []itemKind{
		{types.Typ[types.Int64], "ItemSketchLongSerDe", "ItemSketchLongHasher", num, func(n string) string { return n }},
		{types.Typ[types.Float64], "ItemSketchDoubleSerDe", "ItemSketchDoubleHasher", num, func(n string) string { return "f:" + n }},
		{types.Typ[types.Float32], "ItemSketchFloatSerDe", "", num4, func(n string) string { return "f32:" + n }},
		{types.Typ[types.String], "ItemSketchStringSerDe", "ItemSketchStringHasher", func(n string) []lfld {
			l := strLen(n)
			return []lfld{kf(4, uint64(l)), vf(n, l)}
		}, func(n string) string { return "s:" + n }},
	}
}

// strLen gives the strings of an image different lengths, the empty one included.
func strLen(n string) int { return int(n[len(n)-1]-'0') % 4 }

func (k itemKind) serdeVal(c *lctx) bval {
	t := c.p.SPkgs["common"].Type(k.serde)
	if t == nil {
		return bnil{}
	}
	return biface{t: t.Type(), v: c.s.zero(t.Type())}
}

func kllLayouts() []*layout {
	var out []*layout
	u8 := func(v uint64) lfld { return kf(1, v) }
	for _, k := range itemKinds() {
		k := k
		items := func(ns ...string) (r []lfld) {
			for _, n := range ns {
				r = append(r, k.item(n)...)
			}
			return
		}
		args := func(c *lctx, i int, t types.Type) bval {
			switch t.Underlying().(type) {
			case *types.Signature:
				return bfunc{hook: func(a []bval) bval { return c.s.source("order", 1, 1) }}
			case *types.Interface:
				return k.serdeVal(c)
			}
			return nil
		}
		enc := func(c *lctx) bval { return c.ok(c.method(c.sk, c.skT, "ToSlice"), "ToSlice") }
		hdr := func(pre, ver, flags uint64, kk lfld) []lfld {
			return []lfld{u8(pre), u8(ver), u8(15), u8(flags), kk, u8(8), u8(0)}
		}
		w := k.want
		var arr []string
		for i := 0; i < 30; i++ {
			arr = append(arr, "_")
		}
		arr = append(arr, w("i1"), w("i2"), w("i3"))
		for _, l := range []*layout{
			{name: "empty", img: hdr(2, 1, 1, kf(2, 200)), get: []string{"IsEmpty()=true", "GetN()=#0", "GetK()=#200", "GetNumRetained()=#0", "GetSerializedSizeBytes()=size", "IsEstimationMode()=false"}},
			{name: "empty, sorted flag", img: hdr(2, 1, 3, kf(2, 300)), get: []string{"IsEmpty()=true", "GetK()=#300"}},
			{name: "single", img: cat(hdr(2, 2, 4, kf(2, 200)), items("i1")), get: []string{"IsEmpty()=false", "GetN()=#1", "GetK()=#200", "GetNumRetained()=#1", "GetMinItem()=" + w("i1"), "GetMaxItem()=" + w("i1"), "GetSerializedSizeBytes()=size"}},
			{name: "single, short item", img: cat(hdr(2, 2, 6, kf(2, 200)), items("i0")), get: []string{"GetN()=#1", "GetMinItem()=" + w("i0"), "GetMaxItem()=" + w("i0"), "GetSerializedSizeBytes()=size"}},
			{name: "one level", img: cat(hdr(5, 1, 0, kf(2, 300)), vlo("n", 8, 62, 1<<62), vb("minK", 2, 16), u8(1), u8(0), kf(4, 297), items("lo0", "hi1", "i1", "i2", "i3")),
				get: []string{"IsEmpty()=false", "GetN()=n", "GetK()=#300", "GetNumRetained()=#3", "IsEstimationMode()=false", "GetMinItem()=" + w("lo0"), "GetMaxItem()=" + w("hi1"), "GetSerializedSizeBytes()=size"}},
			{name: "two levels, sorted", img: cat(hdr(5, 1, 2, kf(2, 20)), vlo("n", 8, 62, 1<<62), vb("minK", 2, 16), u8(2), u8(0), kf(4, 30), kf(4, 31), items("lo3", "hi0", "i1", "i2", "i3")),
				get: []string{"IsEmpty()=false", "GetN()=n", "GetK()=#20", "GetNumRetained()=#3", "IsEstimationMode()=true", "GetMinItem()=" + w("lo3"), "GetMaxItem()=" + w("hi0"), "GetTotalItemsArray()=[" + strings.Join(arr, " ") + "]", "GetSerializedSizeBytes()=size"}},
		} {
			l.name = "kll " + l.name + " " + k.t.String()
			l.dec, l.tm, l.args, l.enc = "kll.NewKllItemsSketchFromSlice", k.t, args, enc
			out = append(out, l)
		}
	}
	k := itemKinds()[0]
	one := func(v uint64) lfld { return kf(8, v) }
	out = append(out, &layout{name: "kll large k " + k.t.String(), dec: "kll.NewKllItemsSketchFromSlice", tm: k.t, steps: 60_000_000,
		args: func(c *lctx, i int, t types.Type) bval {
			switch t.Underlying().(type) {
			case *types.Signature:
				return bfunc{hook: func(a []bval) bval { return c.s.source("order", 1, 1) }}
			case *types.Interface:
				return k.serdeVal(c)
			}
			return nil
		},
		enc: func(c *lctx) bval { return c.ok(c.method(c.sk, c.skT, "ToSlice"), "ToSlice") },
		img: cat(u8(5), u8(1), u8(15), u8(2), kf(2, 65535), u8(8), u8(0), vlo("n", 8, 62, 1<<62), kf(2, 65535), u8(2), u8(0), kf(4, 109221), kf(4, 109223), one(1), one(9), many(109225-109221, func(i int) []lfld { return []lfld{one(uint64(i + 1))} })),
		get: []string{"GetK()=#65535", "GetNumRetained()=#4", "GetN()=n"}})
	return out
}

func freqLayouts() []*layout {
	var out []*layout
	u8 := func(v uint64) lfld { return kf(1, v) }
	hdr := func(pre, lgMax, lgCur, flags uint64) []lfld {
		return []lfld{u8(pre), u8(1), u8(10), u8(lgMax), u8(lgCur), u8(flags), kf(2, 0)}
	}
	count := func(n string) lfld { return vlo(n, 8, 61, 1<<61) } // counts are positive
	for _, k := range append([]itemKind{{}}, itemKinds()...) {
		k := k
		dec, name := "frequencies.NewFrequencyItemsSketchFromSlice", "items sketch"
		if k.t == nil {
			k = itemKinds()[0]
			dec, name = "frequencies.NewLongsSketchFromSlice", "longs sketch"
		} else if k.hash == "" {
			continue
		} else {
			name += " of " + k.t.String()
		}
		args := func(c *lctx, i int, t types.Type) bval {
			if _, ok := t.Underlying().(*types.Interface); !ok {
				return nil
			}
			if strings.Contains(t.String(), "Hasher") {
				h := c.p.SPkgs["common"].Type(k.hash)
				if h == nil {
					return nil
				}
				return biface{t: h.Type(), v: c.s.zero(h.Type())}
			}
			return k.serdeVal(c)
		}
		items := func(ns ...string) (r []lfld) {
			for _, n := range ns {
				r = append(r, k.item(n)...)
			}
			return
		}
		// every item hashes to a slot of its own, in the order of the image
		hash := func(c *lctx, in []bval) (bval, bool) {
			v := in[len(in)-1]
			for i, n := range []string{"i0", "i1", "i2", "i3"} {
				if c.flds[n] != nil && c.is(v, k.want(n)) {
					return bconst(uint64(3*i+1), 64), true
				}
			}
			return nil, false
		}
		nil0 := func(c *lctx, in []bval) (bval, bool) { return bconst(0, 1), true }
		enc := func(c *lctx) bval { return c.ok(c.method(c.sk, c.skT, "ToSlice"), "ToSlice") }
		at := func(n string) string {
			w := k.want(n)
			return "@" + w
		}
		for _, l := range []*layout{
			{name: "empty", img: hdr(1, 10, 3, 5), get: []string{"IsEmpty()=true", "GetStreamLength()=#0", "GetMaximumError()=#0", "GetNumActiveItems()=#0", "GetMaximumMapCapacity()=#768"}},
			{name: "empty, other size", img: hdr(1, 4, 3, 5), get: []string{"IsEmpty()=true", "GetMaximumMapCapacity()=#12"}},
			{name: "empty by the first flag", img: hdr(1, 4, 3, 1), read: true, get: []string{"IsEmpty()=true", "GetMaximumMapCapacity()=#12"}},
			{name: "empty by the second flag", img: hdr(1, 4, 3, 4), read: true, get: []string{"IsEmpty()=true", "GetMaximumMapCapacity()=#12"}},
			{name: "one item", img: cat(hdr(4, 6, 3, 0), kf(4, 1), kf(4, 0), vf("weight", 8), kf(8, 0), count("c1"), items("i1")),
				get: []string{"IsEmpty()=false", "GetNumActiveItems()=#1", "GetStreamLength()=weight", "GetMaximumError()=#0", "GetMaximumMapCapacity()=#48",
					"GetEstimate(" + at("i1") + ")=c1", "GetUpperBound(" + at("i1") + ")=c1", "GetLowerBound(" + at("i1") + ")=c1"}},
			{name: "items", img: cat(hdr(4, 7, 5, 0), kf(4, 3), kf(4, 0), vf("weight", 8), vb("offset", 8, 60), count("c1"), count("c2"), count("c3"), items("i1", "i2", "i3")),
				get: []string{"IsEmpty()=false", "GetNumActiveItems()=#3", "GetStreamLength()=weight", "GetMaximumError()=offset", "GetMaximumMapCapacity()=#96",
					"GetLowerBound(" + at("i1") + ")=c1", "GetLowerBound(" + at("i2") + ")=c2", "GetLowerBound(" + at("i3") + ")=c3"}},
		} {
			l.name = name + " " + l.name
			l.dec, l.enc, l.args = dec, enc, args
			if l.read {
				l.enc = nil
			}
			if name != "longs sketch" {
				l.tm = k.t
			}
			l.model = map[string]func(c *lctx, in []bval) (bval, bool){"frequencies.hashFn": hash, "common.(" + k.hash + ").Hash": hash, "internal.IsNil": nil0}
			out = append(out, l)
		}
	}
	out = append(out, &layout{name: "longs sketch many items", dec: "frequencies.NewLongsSketchFromSlice", steps: 60_000_000,
		enc:   func(c *lctx) bval { return c.ok(c.method(c.sk, c.skT, "ToSlice"), "ToSlice") },
		img:   cat(hdr(4, 17, 17, 0), kf(4, 70000), kf(4, 0), vf("weight", 8), vb("offset", 8, 60), many(70000, func(i int) []lfld { return []lfld{kf(8, 3)} }), many(70000, func(i int) []lfld { return []lfld{kf(8, uint64(i+1))} })),
		get:   []string{"GetNumActiveItems()=#70000", "GetStreamLength()=weight", "GetMaximumError()=offset"},
		model: map[string]func(c *lctx, in []bval) (bval, bool){"frequencies.hashFn": func(c *lctx, in []bval) (bval, bool) { return in[len(in)-1], true }}})
	return out
}

func countLayouts() []*layout {
	u8 := func(v uint64) lfld { return kf(1, v) }
	hdr := func(flags, buckets, hashes uint64) []lfld {
		return []lfld{u8(2), u8(1), u8(18), u8(flags), kf(4, 0), kf(4, buckets), u8(hashes), kf(2, seedHash), u8(0)}
	}
	enc := func(c *lctx) bval {
		w, bytes := c.writer()
		c.ok(btuple{bnil{}, c.method(c.sk, c.skT, "Serialize", w)}, "Serialize")
		return bytes()
	}
	weight := vlo("weight", 8, 61, 1<<61)
	var counters []lfld
	for i := 0; i < 6; i++ {
		counters = append(counters, vf("v"+string(rune('0'+i)), 8))
	}
	item := func(c *lctx) {
		o := &bObj{cells: []bval{bconst(7, 8)}}
		c.same("GetEstimate", c.method(c.sk, c.skT, "GetEstimate", bslice{o, 0, 1, 1}), "v3")
	}
	out := []*layout{
		{name: "empty", img: hdr(1, 5, 3), get: []string{"GetNumBuckets()=#5", "GetNumHashes()=#3", "GetTotalWeight()=#0", "GetSeed()=#9001"}},
		{name: "empty, many buckets", img: hdr(1, 70000, 2), steps: 10_000_000, get: []string{"GetNumBuckets()=#70000", "GetNumHashes()=#2", "GetTotalWeight()=#0"}},
		{name: "one hash", img: cat(hdr(0, 6, 1), weight, counters), get: []string{"GetNumBuckets()=#6", "GetNumHashes()=#1", "GetTotalWeight()=weight"}, after: item},
		{name: "two hashes", img: cat(hdr(0, 3, 2), weight, counters), get: []string{"GetNumBuckets()=#3", "GetNumHashes()=#2", "GetTotalWeight()=weight"}},
	}
	for _, l := range out {
		l.name = "count-min " + l.name
		l.dec, l.ctor, l.enc = "count.(CountMinSketch).Deserialize", "", enc
		l.model = map[string]func(c *lctx, in []bval) (bval, bool){
			"internal.HashByteArrMurmur3": func(c *lctx, in []bval) (bval, bool) {
				return btuple{bconst(9, 64), c.s.source("hash", 64, 64)}, true
			}}
	}
	return out
}

func tdigestLayouts() []*layout {
	var out []*layout
	u8 := func(v uint64) lfld { return kf(1, v) }
	hdr := func(pre, k, flags uint64) []lfld {
		return []lfld{u8(pre), u8(1), u8(20), kf(2, k), u8(flags), kf(2, 0)}
	}
	be := func(f lfld) lfld { f.be = true; return f }
	weight := func(n string) lfld { return vlo(n, 8, 61, 1<<61) }
	f64 := func(f float64) uint64 { return mathBits(f, 64) }
	f32 := func(f float64) uint64 { return mathBits(f, 32) }
	type v struct {
		l    layout
		with uint64
	}
	mm := []string{"MinValue()=f:min", "MaxValue()=f:max"}
	manyT := func(name string, n int) layout {
		return layout{name: name, steps: 60_000_000, img: cat(hdr(2, 10, 0), kf(4, uint64(n)), kf(4, uint64(n+1)), vf("min", 8), vf("max", 8),
			many(n, func(i int) []lfld { return []lfld{kf(8, f64(float64(i))), kf(8, 1)} }), many(n+1, func(i int) []lfld { return []lfld{kf(8, f64(1.5))} })),
			get: append(mm, fmt.Sprintf("TotalWeight()=#%d", 2*n+1))}
	}
	for _, x := range []v{
		{layout{name: "empty", img: hdr(1, 200, 1), get: []string{"IsEmpty()=true", "K()=#200", "TotalWeight()=#0", "SerializedSizeBytes(true)=size"}}, 0},
		{layout{name: "empty, large k", img: hdr(1, 300, 1), get: []string{"IsEmpty()=true", "K()=#300"}}, 1},
		{layout{name: "single value", img: cat(hdr(1, 300, 2), vf("v", 8)), get: []string{"IsEmpty()=false", "K()=#300", "TotalWeight()=#1", "MinValue()=f:v", "MaxValue()=f:v", "SerializedSizeBytes(true)=size"}}, 1},
		{layout{name: "single value, reverse merge", img: cat(hdr(1, 10, 6), vf("v", 8)), get: []string{"IsEmpty()=false", "K()=#10", "MinValue()=f:v", "MaxValue()=f:v"}}, 0},
		{layout{name: "one centroid", img: cat(hdr(2, 100, 4), kf(4, 1), kf(4, 0), vf("min", 8), vf("max", 8), vf("m0", 8), weight("w0")), get: append(mm, "IsEmpty()=false", "K()=#100", "TotalWeight()=w0", "SerializedSizeBytes(false)=size")}, 0},
		{layout{name: "centroids", img: cat(hdr(2, 100, 0), kf(4, 2), kf(4, 0), vf("min", 8), vf("max", 8), vf("m0", 8), kf(8, 1<<40), vf("m1", 8), kf(8, 5)), get: append(mm, "IsEmpty()=false", "TotalWeight()=#1099511627781")}, 0},
		{layout{name: "centroids and buffer", img: cat(hdr(2, 10, 4), kf(4, 1), kf(4, 2), vf("min", 8), vf("max", 8), vf("m0", 8), kf(8, 1<<33), vf("b0", 8), vf("b1", 8)), get: append(mm, "IsEmpty()=false", "K()=#10", "TotalWeight()=#8589934594", "SerializedSizeBytes(true)=size")}, 1},
		{layout{name: "buffer", img: cat(hdr(2, 10, 0), kf(4, 0), kf(4, 2), vf("min", 8), vf("max", 8), vf("b0", 8), vf("b1", 8)), get: append(mm, "IsEmpty()=false", "TotalWeight()=#2")}, 1},
		{manyT("many centroids and buffered values", 66000), 1},
		{manyT("hundreds of centroids and buffered values", 300), 1},
		{layout{name: "reference double", img: cat(kf(3, 0), u8(1), be(vf("min", 8)), be(vf("max", 8)), be(kf(8, f64(300))), be(kf(4, 2)), be(kf(8, f64(3))), be(vf("m0", 8)), be(kf(8, f64(1<<34))), be(vf("m1", 8))),
			out: cat(hdr(2, 300, 0), kf(4, 2), kf(4, 0), vf("min", 8), vf("max", 8), vf("m0", 8), kf(8, 3), vf("m1", 8), kf(8, 1<<34)),
			get: append(mm, "IsEmpty()=false", "K()=#300", "TotalWeight()=#17179869187")}, 1},
		{layout{name: "reference float", img: cat(kf(3, 0), u8(2), be(vf("min", 8)), be(vf("max", 8)), be(kf(4, f32(300))), kf(4, 0), be(kf(2, 2)), be(kf(4, f32(3))), be(kf(4, f32(1.5))), be(kf(4, f32(70000))), be(kf(4, f32(-2.25)))),
			out: cat(hdr(2, 300, 0), kf(4, 2), kf(4, 0), vf("min", 8), vf("max", 8), kf(8, f64(1.5)), kf(8, 3), kf(8, f64(-2.25)), kf(8, 70000)),
			get: append(mm, "IsEmpty()=false", "K()=#300", "TotalWeight()=#70003")}, 1},
	} {
		with := x.with
		for _, d := range []string{"tdigest.DecodeDouble", "tdigest.(DoubleDecoder).Decode"} {
			l := x.l
			if l.steps > 0 && d != "tdigest.DecodeDouble" && len(l.img) > 5000 {
				continue
			}
			l.dec = d
			l.enc = func(c *lctx) bval {
				return c.ok(c.fn("tdigest.EncodeDouble", c.sk, bconst(with, 1)), "EncodeDouble")
			}
			if strings.Contains(d, "Decoder") {
				l.enc = func(c *lctx) bval {
					w, bytes := c.writer()
					e := c.fn("tdigest.NewDoubleEncoder", w, bconst(with, 1))
					et := c.retType("tdigest.NewDoubleEncoder", 0)
					r := c.method(bptr{&bObj{cells: []bval{bmem(e)}}, 0}, types.NewPointer(et), "Encode", c.sk)
					c.ok(btuple{bnil{}, r}, "Encode")
					return bytes()
				}
				l.name += " (stream)"
			}
			l.name = "t-digest " + l.name
			out = append(out, &l)
		}
	}
	return out
}

func mathBits(f float64, w int) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func many(n int, f func(i int) []lfld) (r []lfld) {
	for i := 0; i < n; i++ {
		r = append(r, f(i)...)
	}
	return
}

func bloomLayouts() []*layout {
	u8 := func(v uint64) lfld { return kf(1, v) }
	hdr := func(pre, flags uint64, longs uint64) []lfld {
		return []lfld{u8(pre), u8(1), u8(21), u8(flags), vlo("hashes", 2, 15, 1<<15), kf(2, 0), vf("seed", 8), kf(4, longs), kf(4, 0)}
	}
	enc := func(c *lctx) bval { return c.ok(c.method(c.sk, c.skT, "ToCompactSlice"), "ToCompactSlice") }
	common := []string{"NumHashes()=hashes", "Seed()=seed"}
	// words with 320 bits set among them
	bits := func(n int) (r []lfld) {
		left := 320
		for i := 0; i < n; i++ {
			k := min(left, 64)
			left -= k
			r = append(r, kf(8, ^uint64(0)>>uint(64-k)))
		}
		return
	}
	out := []*layout{
		{name: "empty", img: hdr(3, 4, 3), get: append([]string{"IsEmpty()=true", "Capacity()=#192", "BitsUsed()=#0"}, common...)},
		{name: "empty, large", img: hdr(3, 4, 66000), steps: 10_000_000, get: append([]string{"IsEmpty()=true", "Capacity()=#4224000"}, common...)},
		{name: "bits", img: cat(hdr(4, 0, 5), kf(8, 320), bits(5)), get: append([]string{"IsEmpty()=false", "Capacity()=#320", "BitsUsed()=#320"}, common...)},
		{name: "bits, other length", img: cat(hdr(4, 0, 7), kf(8, 322), kf(8, 0x8000000000000001), bits(6)), get: append([]string{"IsEmpty()=false", "Capacity()=#448", "BitsUsed()=#322"}, common...)},
		{name: "bits not counted", img: cat(hdr(4, 0, 2), kf(8, 1<<64-1), kf(8, 0xf0f1), kf(8, 3<<62)), out: cat(hdr(4, 0, 2), kf(8, 11), kf(8, 0xf0f1), kf(8, 3<<62)),
			get: append([]string{"IsEmpty()=false", "BitsUsed()=#11"}, common...)},
	}
	for _, l := range out {
		l.name = "bloom " + l.name
		l.dec, l.enc = "filters.NewBloomFilterFromSlice", enc
	}
	return out
}

func samplingLayouts() []*layout {
	var out []*layout
	u8 := func(v uint64) lfld { return kf(1, v) }
	for _, k := range itemKinds() {
		k := k
		items := func(ns ...string) (r []lfld) {
			for _, n := range ns {
				r = append(r, k.item(n)...)
			}
			return
		}
		args := func(c *lctx, i int, t types.Type) bval {
			if _, ok := t.Underlying().(*types.Interface); ok {
				return k.serdeVal(c)
			}
			return nil
		}
		w := func(ns ...string) string {
			var r []string
			for _, n := range ns {
				r = append(r, k.want(n))
			}
			return "=[" + strings.Join(r, " ") + "]"
		}
		add := func(dec string, enc func(c *lctx) bval, ls ...*layout) {
			for _, l := range ls {
				l.name += " " + k.t.String()
				l.dec, l.tm, l.args = dec, k.t, args
				if !l.read {
					l.enc = enc
				}
				out = append(out, l)
			}
		}
		slice := func(c *lctx) bval {
			return c.ok(c.method(c.sk, c.skT, "ToSlice", k.serdeVal(c)), "ToSlice")
		}
		res := func(rf, pre, ver, flags uint64, kk lfld) []lfld {
			return []lfld{u8(rf<<6 | pre), u8(ver), u8(11), u8(flags), kk}
		}
		n := vlo("n", 8, 46, 1<<46)
		add("sampling.NewReservoirItemsSketchFromSlice", slice,
			&layout{name: "reservoir empty", img: res(3, 1, 2, 4, kf(4, 70000)), get: []string{"K()=#70000", "N()=#0", "NumSamples()=#0"}},
			&layout{name: "reservoir filling", img: cat(res(2, 2, 2, 0, kf(4, 70000)), kf(8, 3), items("i1", "i2", "i3")), get: []string{"K()=#70000", "N()=#3", "NumSamples()=#3", "Samples()" + w("i1", "i2", "i3")}},
			&layout{name: "reservoir sampling", img: cat(res(1, 2, 2, 0, kf(4, 2)), n, items("i1", "i0")), get: []string{"K()=#2", "N()=n", "NumSamples()=#2", "Samples()" + w("i1", "i0")}},
			&layout{name: "reservoir exactly full", img: cat(res(0, 2, 2, 0, kf(4, 3)), kf(8, 3), items("i1", "i0", "i3")), get: []string{"K()=#3", "N()=#3", "Samples()" + w("i1", "i0", "i3")}},
			&layout{name: "reservoir version 1", read: true, img: cat(res(1, 2, 1, 0, kf(2, 0x0801)), kf(2, 0), n, items("i1", "i0")), get: []string{"K()=#2", "N()=n", "Samples()" + w("i1", "i0")}},
		)
		uni := func(ver, flags uint64, kk lfld) []lfld {
			return []lfld{u8(1), u8(ver), u8(12), u8(flags), kk}
		}
		add("sampling.NewReservoirItemsUnionFromSlice", slice,
			&layout{name: "reservoir union empty", img: uni(2, 4, vlo("k", 4, 29, 1<<29)), get: []string{"MaxK()=k"}},
			&layout{name: "reservoir union", img: cat(uni(2, 0, kf(4, 70000)), res(2, 2, 2, 0, kf(4, 70000)), kf(8, 2), items("i1", "i2")), get: []string{"MaxK()=#70000"}},
			&layout{name: "reservoir union version 1", read: true, img: cat(uni(1, 4, kf(2, 0x0801)), kf(2, 0)), get: []string{"MaxK()=#2"}},
		)
		stream := func(ctor string) func(c *lctx) bval {
			return func(c *lctx) bval {
				w, bytes := c.writer()
				e := c.fn(ctor, w, k.serdeVal(c))
				et := c.retType(ctor, 0)
				r := c.method(bptr{&bObj{cells: []bval{bmem(e)}}, 0}, types.NewPointer(et), "Encode", c.sk)
				c.ok(btuple{bnil{}, r}, "Encode")
				return bytes()
			}
		}
		vo := func(rf, pre, flags uint64, kk lfld) []lfld {
			return []lfld{u8(rf<<6 | pre), u8(2), u8(13), u8(flags), kk}
		}
		var nine, nineW []lfld
		var nineN []string
		for i := 0; i < 9; i++ {
			nine = append(nine, k.item(fmt.Sprintf("x%d", i))...)
			nineW = append(nineW, kf(8, mathBits(float64(i+1), 64)))
			nineN = append(nineN, k.want(fmt.Sprintf("x%d", i)), fmt.Sprintf("g:%d", i+1))
		}
		add("sampling.DecodeVarOptItemsSketch", stream("sampling.NewVarOptItemsSketchEncoder"),
			&layout{name: "varopt empty", img: vo(3, 1, 4, kf(4, 70000)), get: []string{"K()=#70000", "N()=#0", "NumSamples()=#0", "IsEmpty()=true"}},
			&layout{name: "varopt empty gadget", img: vo(3, 1, 132, kf(4, 300)), get: []string{"K()=#300", "N()=#0", "NumSamples()=#0", "IsEmpty()=true"}},
			&layout{name: "varopt warming up", img: cat(vo(2, 3, 0, kf(4, 70000)), kf(8, 2), kf(4, 2), kf(4, 0), vf("w1", 8), vf("w2", 8), items("i1", "i2")),
				get: []string{"K()=#70000", "N()=#2", "H()=#2", "R()=#0", "NumSamples()=#2", "All()=[" + k.want("i1") + " f:w1 " + k.want("i2") + " f:w2]"}},
			&layout{name: "varopt sampling", img: cat(vo(1, 4, 0, kf(4, 3)), n, kf(4, 2), kf(4, 1), vf("wr", 8), vf("w1", 8), vf("w2", 8), items("i1", "i2", "i3")),
				get: []string{"K()=#3", "N()=n", "H()=#2", "R()=#1", "NumSamples()=#3", "All()=[" + k.want("i1") + " f:w1 " + k.want("i2") + " f:w2 " + k.want("i3") + " f:wr]"}},
			&layout{name: "varopt gadget", limit: 600, img: cat(vo(0, 3, 128, kf(4, 20)), kf(8, 9), kf(4, 9), kf(4, 0), nineW, vf("marks", 1), vb("marks9", 1, 1), nine),
				get: []string{"K()=#20", "N()=#9", "H()=#9", "R()=#0", "All()=[" + strings.Join(nineN, " ") + "]"}},
			&layout{name: "varopt sampling gadget", img: cat(vo(0, 4, 128, kf(4, 3)), n, kf(4, 1), kf(4, 2), vf("wr", 8), vf("w1", 8), vb("marks", 1, 1), items("i1", "i2", "i3")),
				get: []string{"K()=#3", "N()=n", "H()=#1", "R()=#2"}},
			&layout{name: "varopt sampling continues", steps: 100_000, limit: 40, read: true, img: cat(vo(0, 4, 0, kf(4, 3)), kf(8, 9), kf(4, 1), kf(4, 2), kf(8, mathBits(2, 64)), kf(8, mathBits(100, 64)), items("i1", "i2", "i3")),
				get: []string{"K()=#3", "N()=#9"}, after: func(c *lctx) {
					r := c.method(c.sk, c.skT, "Update", c.value(k.want("i1")), fconst(1))
					c.ok(btuple{bnil{}, r}, "an update of the decoded sketch")
					c.same("N() after an update", c.method(c.sk, c.skT, "N"), "#10")
				}},
		)
		vu := func(pre, flags uint64, kk uint64) []lfld {
			return []lfld{u8(pre), u8(2), u8(14), u8(flags), kf(4, kk)}
		}
		add("sampling.DecodeVarOptItemsUnion", stream("sampling.NewVarOptItemsUnionEncoder"),
			&layout{name: "varopt union empty", img: vu(1, 4, 70000)},
			&layout{name: "varopt union", img: cat(vu(4, 0, 70000), vf("n", 8), vf("numer", 8), vf("denom", 8), vo(2, 3, 128, kf(4, 70000)), kf(8, 2), kf(4, 2), kf(4, 0), vf("w1", 8), vf("w2", 8), vb("marks", 1, 2), items("i1", "i2"))},
		)
	}
	i64 := itemKinds()[0]
	ser := func(c *lctx, i int, t types.Type) bval {
		if _, ok := t.Underlying().(*types.Interface); ok {
			return i64.serdeVal(c)
		}
		return nil
	}
	ones := func(n int, v uint64) []lfld { return many(n, func(i int) []lfld { return []lfld{kf(8, v)} }) }
	out = append(out, &layout{name: "reservoir many samples", dec: "sampling.NewReservoirItemsSketchFromSlice", tm: i64.t, args: ser, steps: 60_000_000,
		enc: func(c *lctx) bval { return c.ok(c.method(c.sk, c.skT, "ToSlice", i64.serdeVal(c)), "ToSlice") },
		img: cat(u8(2<<6|2), u8(2), u8(11), u8(0), kf(4, 70000), kf(8, 66000), ones(66000, 7)), get: []string{"K()=#70000", "N()=#66000", "NumSamples()=#66000"}})
	f1 := mathBits(1, 64)
	for _, q := range []struct {
		name   string
		h, r   uint64
		pre, k uint64
	}{{"varopt many heavy items", 66000, 0, 3, 70000}, {"varopt many light items", 0, 66000, 4, 66000}} {
		seen := uint64(66000)
		if q.r > 0 {
			seen = 70000
		}
		img := []lfld{u8(q.pre), u8(2), u8(13), u8(0), kf(4, q.k), kf(8, seen), kf(4, q.h), kf(4, q.r)}
		if q.r > 0 {
			img = append(img, vf("wr", 8))
		}
		out = append(out, &layout{name: q.name, dec: "sampling.DecodeVarOptItemsSketch", tm: i64.t, args: ser, steps: 80_000_000,
			enc: func(c *lctx) bval {
				w, bytes := c.writer()
				e := c.fn("sampling.NewVarOptItemsSketchEncoder", w, i64.serdeVal(c))
				et := c.retType("sampling.NewVarOptItemsSketchEncoder", 0)
				r := c.method(bptr{&bObj{cells: []bval{bmem(e)}}, 0}, types.NewPointer(et), "Encode", c.sk)
				c.ok(btuple{bnil{}, r}, "Encode")
				return bytes()
			},
			img: cat(img, ones(int(q.h), f1), ones(66000, 7)), get: []string{fmt.Sprintf("K()=#%d", q.k), fmt.Sprintf("N()=#%d", seen), fmt.Sprintf("H()=#%d", q.h), fmt.Sprintf("R()=#%d", q.r)}})
	}
	return out
}

// hllLayouts: the three modes of a sketch, for each of the three register widths.
func hllLayouts() []*layout {
	u8 := func(v uint64) lfld { return kf(1, v) }
	compact := func(c *lctx) bval { return c.ok(c.method(c.sk, c.skT, "ToCompactSlice"), "ToCompactSlice") }
	updatable := func(c *lctx) bval { return c.ok(c.method(c.sk, c.skT, "ToUpdatableSlice"), "ToUpdatableSlice") }
	args := func(c *lctx, i int, t types.Type) bval {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			return bconst(1, 1)
		}
		return nil
	}
	// a coupon is never zero
	cp := func(n string) lfld { return vlo(n, 4, 31, 1<<31) }
	// a coupon whose place in the table is known
	at := func(n string, key uint64) lfld { return lfld{name: n, w: 4, from: 26, bits: 31, val: 1<<31 | key} }
	zero := func(n int) (r []lfld) {
		for i := 0; i < n; i++ {
			r = append(r, kf(4, 0))
		}
		return
	}
	var out []*layout
	add := func(e func(*lctx) bval, g []string, ls ...*layout) {
		for _, l := range ls {
			l.dec, l.enc, l.args = "hll.NewHllSketchFromSlice", e, args
			l.get = append(append([]string(nil), g...), l.get...)
			out = append(out, l)
		}
	}
	for t := uint64(0); t < 3; t++ {
		nm := fmt.Sprintf(" HLL_%d", 4+2*t)
		list := func(lgK, flags, count uint64) []lfld {
			return []lfld{u8(2), u8(1), u8(7), u8(lgK), u8(3), u8(flags), u8(count), u8(t << 2)}
		}
		set := func(lgK, lgArr, flags uint64, count lfld) []lfld {
			return []lfld{u8(3), u8(1), u8(7), u8(lgK), u8(lgArr), u8(flags), u8(0), u8(t<<2 | 1), count}
		}
		any := vlo("count", 4, 2, 4)
		hll := func(lgK uint64, flags uint64, lgArr lfld, aux uint64) []lfld {
			cm := u8(0)
			if t == 0 {
				cm = vb("curMin", 1, 8)
			}
			return []lfld{u8(10), u8(1), u8(7), u8(lgK), lgArr, u8(flags), cm, u8(t<<2 | 2),
				vlo("hip", 8, 62, 1<<62), vlo("kxq0", 8, 61, 1<<61), vlo("kxq1", 8, 60, 1<<60), vb("atMin", 4, 32), kf(4, aux)}
		}
		regs := func(n int) (r []lfld) {
			for i := 0; i < n; i++ {
				r = append(r, vb(fmt.Sprint("r", i), 1, 8))
			}
			return
		}
		g := func(lgK int, empty string, mode int) []string {
			return []string{fmt.Sprintf("GetLgConfigK()=#%d", lgK), fmt.Sprintf("GetTgtHllType()=#%d", t), "IsEmpty()=" + empty, fmt.Sprintf("GetCurMode()=#%d", mode)}
		}
		add(compact, g(12, "true", 0), &layout{name: "hll empty, compact" + nm, img: list(12, 4|8, 0)})
		add(updatable, g(21, "true", 0), &layout{name: "hll empty, updatable" + nm, img: cat(list(21, 4, 0), zero(8))})
		add(compact, g(11, "false", 0), &layout{name: "hll list, compact" + nm, img: cat(list(11, 8, 3), cp("c0"), cp("c1"), cp("c2"))})
		add(updatable, g(4, "false", 0), &layout{name: "hll list, updatable" + nm, img: cat(list(4, 0, 3), cp("c0"), cp("c1"), cp("c2"), zero(5))})
		ci := []lfld{}
		for i := 0; i < 9; i++ {
			ci = append(ci, at(fmt.Sprint("c", i), uint64(3*i+1)|uint64(i)<<20))
		}
		add(compact, g(12, "false", 1), &layout{name: "hll set, compact" + nm, img: cat(set(12, 5, 8, kf(4, 9)), ci)})
		// the table of an updatable image is taken as it is
		tab := cat(at("c0", 0x1234560), at("c1", 0x20), zero(13), at("c2", 15), zero(15), at("c3", 0x31f))
		add(updatable, g(12, "false", 1), &layout{name: "hll set, updatable" + nm, img: cat(set(12, 5, 0, any), tab)})
		tab6 := cat(tab, zero(31), at("c4", 0x2000000))
		add(updatable, g(20, "false", 1), &layout{name: "hll large set, updatable" + nm, img: cat(set(20, 6, 0, any), tab6)})
		n := 16
		if t == 1 {
			n = 13
		}
		lgK := uint64(4)
		if t == 0 {
			lgK = 5
		}
		hip := []string{"GetHipEstimate()=f:hip"}
		cf := uint64(8) // the two forms of the arrays without exceptions are the same
		if t != 0 {
			cf = 0
		}
		add(compact, append(hip, g(int(lgK), "false", 2)...), &layout{name: "hll array, compact" + nm, img: cat(hll(lgK, cf, u8(0), 0), regs(n))},
			&layout{name: "hll array out of order, compact" + nm, img: cat(hll(lgK, cf|16, u8(0), 0), regs(n))})
		add(compact, append(hip, g(int(lgK), "false", 2)...), &layout{name: "hll array to be rebuilt" + nm, img: cat(hll(lgK, cf|32, u8(0), 0), regs(n))})
		out[len(out)-1].args = func(c *lctx, i int, t types.Type) bval {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				return bconst(0, 1)
			}
			return nil
		}
		if t != 0 {
			add(updatable, append(hip, g(int(lgK), "false", 2)...), &layout{name: "hll array, updatable" + nm, img: cat(hll(lgK, 0, u8(0), 0), regs(n))})
			continue
		}
		ax := cat(at("a0", 4), at("a1", 5), at("a2", 18))
		add(compact, hip, &layout{name: "hll array with exceptions, compact" + nm, img: cat(hll(5, 8, u8(2), 3), regs(n), ax)})
		add(updatable, hip, &layout{name: "hll array with exceptions, updatable" + nm, img: cat(hll(5, 0, u8(3), 3), regs(n), zero(2), at("a2", 18), at("a0", 3), zero(1), at("a1", 5), zero(2))})
		add(updatable, hip, &layout{name: "hll array, updatable" + nm, img: cat(hll(5, 0, u8(0), 0), regs(n), zero(4))})
	}
	return out
}

// cpcLayouts: the eight formats; the compressed words are opaque here (C08
// shows that the coders invert).
func cpcLayouts() []*layout {
	u8 := func(v uint64) lfld { return kf(1, v) }
	find := func(p *Prog) *ssa.Function { return p.bySignature("cpc", "func([]byte) (*CpcCompressedState, error)") }
	enc := func(c *lctx) bval {
		f := c.p.bySignature("cpc", "*CpcCompressedState.func() ([]byte, error)")
		if f == nil {
			c.s.stop("undecided", "the writer of compressed states no longer exists", nil)
		}
		return c.ok(c.s.call(f, []bval{c.sk}, nil, nil), "writing")
	}
	ws := func(p string, n int) (r []lfld) {
		for i := 0; i < n; i++ {
			r = append(r, vb(fmt.Sprint(p, i), 4, 32))
		}
		return
	}
	seq := func(p string, n int) string {
		var r []string
		for i := 0; i < n; i++ {
			r = append(r, fmt.Sprint(p, i))
		}
		return "=[" + strings.Join(r, " ") + "]"
	}
	kxp, hip := vlo("kxp", 8, 62, 1<<62), vlo("hip", 8, 61, 1<<61)
	num, sv := vlo("num", 4, 31, 1<<31), vlo("sv", 4, 31, 1<<31)
	var out []*layout
	for f := uint64(0); f < 8; f++ {
		pre := []uint64{2, 2, 4, 8, 4, 8, 6, 10}[f]
		fi := u8(0)
		get := []string{".LgK=#11", ".SeedHash=seed", ".MergeFlag=" + fmt.Sprint(f&1 == 0), ".CsvIsValid=" + fmt.Sprint(f&2 != 0), ".WindowIsValid=" + fmt.Sprint(f&4 != 0)}
		if f >= 4 {
			fi = vb("fi", 1, 5)
			get = append(get, ".FiCol=fi")
		}
		img := []lfld{u8(pre), u8(1), u8(16), u8(11), fi, u8(f<<2 | 2), vb("seed", 2, 16)}
		if f >= 2 {
			img = append(img, num)
			get = append(get, ".NumCoupons=num")
		}
		if f < 6 && f&2 != 0 {
			get = append(get, ".NumCsv=num")
		}
		if f >= 6 {
			img = append(img, sv)
			get = append(get, ".NumCsv=sv")
		}
		ns, nw := 0, 0
		if f&2 != 0 {
			ns = 3
		}
		if f&4 != 0 {
			nw = 2
		}
		lens := []lfld{}
		if ns > 0 {
			lens = append(lens, kf(4, 3))
			get = append(get, ".CsvLengthInts=#3")
		}
		if nw > 0 {
			lens = append(lens, kf(4, 2))
			get = append(get, ".CwLengthInts=#2")
		}
		var acc []lfld
		if f&1 != 0 && f > 1 {
			acc = []lfld{kxp, hip}
			get = append(get, ".Kxp=f:kxp", ".HipEstAccum=f:hip")
		}
		if f == 7 {
			img = cat(img, acc, lens)
		} else {
			img = cat(img, lens, acc)
		}
		img = cat(img, ws("w", nw), ws("s", ns))
		if ns > 0 {
			get = append(get, ".CsvStream"+seq("s", ns))
		}
		if nw > 0 {
			get = append(get, ".CwStream"+seq("w", nw))
		}
		nm := []string{"empty, merged", "empty", "surprising values, merged", "surprising values", "window, merged", "window", "window and surprising values, merged", "window and surprising values"}[f]
		out = append(out, &layout{name: "cpc " + nm, find: find, img: img, enc: enc, get: get})
		w := &layout{name: "wrapped cpc " + nm, dec: "cpc.NewCpcWrapperFromBytes", img: img, get: []string{"GetLgK()=#11", "GetFamily()=#16"}}
		if f > 1 && f&1 == 1 {
			w.get = append(w.get, "GetEstimate()=f:hip")
		}
		out = append(out, w)
	}
	for f := uint64(6); f < 8; f++ {
		pre := []uint64{6, 10}[f-6]
		img := cat(u8(pre), u8(1), u8(16), u8(26), u8(0), u8(f<<2|2), vb("seed", 2, 16), num, sv)
		if f == 7 {
			img = cat(img, kxp, hip)
		}
		img = cat(img, kf(4, 66000), kf(4, 67000), many(66000+67000, func(i int) []lfld { return []lfld{kf(4, uint64(i))} }))
		out = append(out, &layout{name: fmt.Sprintf("cpc long streams, format %d", f), find: find, img: img, enc: enc, steps: 60_000_000, get: []string{".LgK=#26", ".CsvLengthInts=#66000", ".CwLengthInts=#67000"}})
	}
	// whole sketches, with the compressed words of one content of each flavor
	hexWords := func(h string) (r []lfld) {
		b, _ := hex.DecodeString(h)
		for _, x := range b {
			r = append(r, u8(uint64(x)))
		}
		return
	}
	whole := func(c *lctx) bval { return c.ok(c.method(c.sk, c.skT, "ToCompactSlice"), "ToCompactSlice") }
	for _, q := range []struct {
		name           string
		f, fi, num, sv uint64
		w, s           string
	}{
		{"empty", 1, 0, 0, 0, "", ""},
		{"sparse", 3, 0, 1, 0, "", "16000000"},
		{"hybrid", 3, 0, 3, 0, "", "ea080000"},
		{"pinned", 5, 0, 9, 0, "76896e6c01000000", ""},
		{"sliding", 5, 3, 86, 0, "7a6ceff3853c265c29080000", ""},
		{"sliding with surprising values", 7, 1, 55, 1, "3618b52ed38f400f00000000", "3b000000"},
		{"sliding, first column 2", 7, 2, 70, 1, "3ca92df465ede09800000000", "1d000000"},
	} {
		for m := uint64(0); m < 2; m++ {
			f := q.f - m
			pre := []uint64{2, 2, 4, 8, 4, 8, 6, 10}[f]
			img := []lfld{u8(pre), u8(1), u8(16), u8(4), u8(q.fi), u8(f<<2 | 2), kf(2, seedHash)}
			var acc, lens []lfld
			get := []string{"GetLgK()=#4"}
			if m == 0 && q.num > 0 {
				acc = []lfld{kxp, hip}
				get = append(get, "GetEstimate()=f:hip")
			}
			if q.num > 0 {
				img = append(img, kf(4, q.num))
			}
			if f >= 6 {
				img = append(img, kf(4, q.sv))
			}
			if q.s != "" {
				lens = append(lens, kf(4, uint64(len(q.s)/8)))
			}
			if q.w != "" {
				lens = append(lens, kf(4, uint64(len(q.w)/8)))
			}
			if f == 7 {
				img = cat(img, acc, lens)
			} else {
				img = cat(img, lens, acc)
			}
			nm := "cpc sketch " + q.name
			if m == 1 {
				nm += ", merged"
			}
			out = append(out, &layout{name: nm, dec: "cpc.NewCpcSketchFromSlice", img: cat(img, hexWords(q.w), hexWords(q.s)), enc: whole, get: get, fold: true})
		}
	}
	return out
}
