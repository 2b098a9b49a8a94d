package main

import (
	"fmt"
	"math/bits"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
)

// C07: the decoders are followed on images laid out from the field tables that are cut short at every
// length, extended, or have one byte or one word replaced, the contents of the other fields unknown.
// Every path must end in a sketch or in an error; a path to a panic is the violation.

func init() { checks["C07"] = chkC07 }

// change is one corruption of an image.
type change struct {
	what string
	at   int // of the bytes replaced
	b    []byte
	keep []bool // the bytes of b that stay as they are
	cut  int    // new length, -1 as it is
}

func changes(img []bval) (out []change) {
	n := len(img)
	for i := 0; i < n; i++ {
		if n < 150 || i < 64 || i%7 == 0 {
			out = append(out, change{what: fmt.Sprintf("cut to %d bytes", i), cut: i})
		}
	}
	for _, x := range []int{1, 7, 8, 64} {
		out = append(out, change{what: fmt.Sprintf("extended by %d bytes", x), cut: n + x})
	}
	for i := 0; i < n && i < 48; i++ {
		for _, v := range []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 20, 21, 22, 24, 26, 27, 31, 32, 63, 64, 127, 128, 132, 192, 254, 255} {
			out = append(out, change{what: fmt.Sprintf("byte %d set to %d", i, v), at: i, b: []byte{byte(v)}, cut: -1})
		}
	}
	word := func(i, w int, v uint64) {
		var b []byte
		for j := 0; j < w; j++ {
			b = append(b, byte(v>>(8*j)))
		}
		out = append(out, change{what: fmt.Sprintf("%d bytes at %d set to %#x", w, i, v), at: i, b: b, cut: -1})
	}
	for i := 0; i+4 <= n && i < 64; i += 4 {
		for _, v := range []uint64{0, 1, 1<<32 - 1, 1<<31 - 1, 1 << 31, 1 << 30, 1 << 29, 1<<28 + 1, 1 << 26, 1 << 16} {
			word(i, 4, v)
		}
	}
	for i := 0; i+8 <= n && i < 64; i += 4 {
		for _, v := range []uint64{0, 1, 1<<64 - 1, 1<<63 - 1, 1 << 63, 1 << 62, 1 << 61, 1 << 60, 1<<60 + 1, 1 << 48, 1 << 32, 0x7ff0000000000000, 0x7ff8000000000001, 0xfff0000000000000} {
			word(i, 8, v)
		}
	}
	// two counts at once: the same sum, or both at a limit
	known := func(i int) (v uint32, ok bool) {
		for j := 3; j >= 0; j-- {
			b, isB := img[i+j].(*bv)
			if !isB {
				return 0, false
			}
			k, isK := b.konst()
			if !isK {
				return 0, false
			}
			v = v<<8 | uint32(k)
		}
		return v, true
	}
	// counts that must agree, or be ordered, grown together
	var counts []int
	for i := 4; i+4 <= n && i < 40; i += 4 {
		if v, ok := known(i); ok && v != 0 && v < 1<<20 {
			counts = append(counts, i)
		}
	}
	for set := 1; set < 1<<len(counts); set++ {
		if bits.OnesCount(uint(set)) < 2 {
			continue
		}
		for _, v := range []uint32{1 << 16, 1 << 28, 1 << 29, 1<<29 + 1, 1 << 30, 1<<31 - 2, 1 << 31} {
			c := change{cut: -1, at: counts[0]}
			var at []string
			for q := counts[0]; q < counts[len(counts)-1]+4; q++ {
				c.b = append(c.b, 0)
				c.keep = append(c.keep, true)
			}
			for k, i := range counts {
				if set>>k&1 == 1 {
					at = append(at, fmt.Sprint(i))
					for q := range 4 {
						c.b[i-c.at+q], c.keep[i-c.at+q] = byte(v>>(8*q)), false
					}
				}
			}
			c.what = fmt.Sprintf("4 bytes at %s set to %#x", strings.Join(at, ", "), v)
			out = append(out, c)
		}
	}
	for i := 0; i+4 <= n && i < 32; i += 4 {
		a, ok := known(i)
		for j := i + 4; ok && j+4 <= n && j < 32; j += 4 {
			b, ok := known(j)
			if !ok {
				continue
			}
			two := func(x, y uint32) {
				c := change{what: fmt.Sprintf("4 bytes at %d set to %#x and at %d to %#x", i, x, j, y), at: i, cut: -1}
				for q := i; q < j+4; q++ {
					c.b = append(c.b, 0)
					c.keep = append(c.keep, q >= i+4 && q < j)
				}
				for q := range 4 {
					c.b[q], c.b[j-i+q] = byte(x>>(8*q)), byte(y>>(8*q))
				}
				out = append(out, c)
			}
			for _, d := range []uint32{1, 2, 3, 4, 5, 8, 16, 1 << 16, 1 << 31, 1<<32 - 1, 1<<32 - 2} {
				two(a+d, b-d)
			}
			for _, x := range []uint32{a + 1, 0, 1<<32 - 1, 1 << 31, 1 << 30} {
				for _, y := range []uint32{b + 1, 0, 1<<32 - 1, 1 << 31, 1 << 30} {
					two(x, y)
				}
			}
		}
	}
	return out
}

func chkC07(p *Prog, r *Report) {
	r.Explain = "rule: for each image variant laid out from the field tables, cut short, extended or with bytes replaced, no path of the decoder ends in a panic"
	only := os.Getenv("LAYOUT")
	var jobs []*decodeJob
	var order []string
	for _, l := range append(layouts(), packedLayouts()...) {
		if only != "" && !strings.Contains(l.name, only) {
			continue
		}
		if l.decoder(p) == nil {
			r.undecided("decode", l.name, "", "the decoder no longer exists")
			continue
		}
		n := 0
		for _, f := range l.img {
			n += f.w
		}
		if n > 600 {
			continue
		}
		var ctx *lctx
		s := l.sim(p, &ctx)
		ctx = &lctx{p: p, s: s, l: l}
		ctx.build()
		cs := changes(ctx.img.o.cells)
		if len(cs) > 0 {
			order = append(order, l.name)
		}
		for i := 0; i < len(cs); i += 100 {
			jobs = append(jobs, &decodeJob{l: l, n: n, cs: cs[i:min(i+100, len(cs))], out: map[string]string{}, count: map[string]int{}})
		}
	}
	var next atomic.Int32
	var wg sync.WaitGroup
	for range min(runtime.NumCPU(), 8) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			q := *p // the constants found so far are kept per worker
			q.consts = nil
			for {
				i := int(next.Add(1)) - 1
				if i >= len(jobs) {
					return
				}
				jobs[i].safely(&q)
			}
		}()
	}
	wg.Wait()
	var images, paths, undecided int
	for _, name := range order {
		out := map[string]string{}
		count := map[string]int{}
		pos := ""
		for _, j := range jobs {
			if j.l.name != name {
				continue
			}
			pos = p.Pos(norm(j.l.decoder(p)).Pos())
			images += len(j.cs)
			paths += j.paths
			for k, v := range j.out {
				count[k] += j.count[k]
				if out[k] == "" {
					out[k] = v
				}
			}
		}
		var ks, bad, cut []string
		for k := range out {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if os.Getenv("CHECK_DEBUG") != "" {
				fmt.Printf("%s | %d %s | %s\n", name, count[k], k, out[k])
			}
			switch {
			case strings.HasPrefix(k, "panic "):
				bad = append(bad, k)
			case strings.HasPrefix(k, "accepted though"):
				cut = append(cut, k)
			case k != "accepted" && k != "rejected":
				undecided += count[k]
			}
		}
		if len(bad) > 0 {
			r.bad("decode", name, pos, fmt.Sprintf("%s when %s", strings.TrimPrefix(bad[0], "panic "), out[bad[0]]))
			continue
		}
		r.ok("decode", name, pos)
		if strings.HasPrefix(name, "wrapped cpc") {
			continue // only the preamble is read
		}
		if len(cut) > 0 {
			r.bad("truncated", name, pos, fmt.Sprintf("%s: %s", cut[0], out[cut[0]]))
			continue
		}
		r.ok("truncated", name, pos)
	}
	r.Counts["images"] = images
	r.Counts["paths"] = paths
	r.Counts["paths without an answer"] = undecided
	r.floor("decode", 260)
	r.floor("truncated", 250)
}

// missing tells whether the bytes after the first n of an image say anything: the padding of tables is
// zeros and may be left out.
func missing(l *layout, n int) bool {
	at := 0
	for _, f := range l.img {
		at += f.w
		if at > n && (f.bits > 0 || f.val != 0) {
			return true
		}
	}
	return false
}

// packedLayouts are images whose entries are stored as differences of few bits; they are only decoded.
func packedLayouts() (out []*layout) {
	u8 := func(v uint64) lfld { return kf(1, v) }
	bytes := func(n int) (r []lfld) {
		for i := range n {
			r = append(r, vb(fmt.Sprint("p", i), 1, 8))
		}
		return
	}
	for _, dec := range []string{"theta.Decode", "theta.WrapCompactSketch"} {
		nm := "packed theta "
		if dec != "theta.Decode" {
			nm = "wrapped packed theta "
		}
		out = append(out,
			&layout{name: nm + "exact", dec: dec, img: cat([]lfld{u8(1), u8(4), u8(3), u8(12), u8(1), u8(0x1a), kf(2, seedHash), u8(9)}, bytes(14))},
			&layout{name: nm + "estimation", dec: dec, img: cat([]lfld{u8(2), u8(4), u8(3), u8(61), u8(2), u8(0x1a), kf(2, seedHash), vb("theta", 8, 62), kf(2, 3)}, bytes(23))},
		)
	}
	out = append(out, &layout{name: "strings summary", dec: "tuple.ArrayOfStringsSummaryReader",
		img: cat([]lfld{kf(4, 13), u8(2), kf(4, 3)}, bytes(3), []lfld{kf(4, 1)}, []lfld{vb("last", 1, 8)})})
	for _, l := range hllLayouts() {
		w := *l
		w.name, w.dec, w.args = "union of "+l.name, "hll.NewUnionFromSlice", nil
		out = append(out, &w)
	}
	return
}

// decodeJob is a part of the changes of one layout.
type decodeJob struct {
	l     *layout
	n     int
	cs    []change
	paths int
	out   map[string]string // outcome: the first change that has it
	count map[string]int
}

func (j *decodeJob) note(k string, ch change, how string) {
	j.count[k]++
	if j.out[k] == "" {
		j.out[k] = ch.what + how
	}
}

func (j *decodeJob) safely(p *Prog) {
	defer func() {
		if e := recover(); e != nil {
			if os.Getenv("CHECK_DEBUG") != "" {
				debug.PrintStack()
			}
			j.note(fmt.Sprintf("panic analysis failed: %v", e), j.cs[0], "")
		}
	}()
	for _, ch := range j.cs {
		if j.explore(p, ch, nil) {
			continue
		}
		// Where a size depends on the unknown contents they are given values.
		for _, fill := range []func(i int) byte{
			func(int) byte { return 0 },
			func(int) byte { return 1 },
			func(int) byte { return 0xff },
			func(i int) byte { return byte(i*37 + 11) },
			func(i int) byte { return byte(i*i*91 + i*13 + 5) },
			func(i int) byte { return 0x80 },
			func(i int) byte { return byte(7 + i&1*0xf0) },
		} {
			j.explore(p, ch, fill)
		}
	}
}

// explore follows the decoder on the changed image and tells whether every path has an outcome.
func (j *decodeJob) explore(p *Prog, ch change, fill func(i int) byte) bool {
	var ctx *lctx
	s := j.l.sim(p, &ctx)
	s.huge = true
	s.maxSteps = 100_000
	limit := 24
	if strings.HasPrefix(j.l.name, "union of") {
		limit = 3 // registers are compared with each other
	}
	how := ""
	if fill != nil {
		how = fmt.Sprintf(" (other bytes like %d)", fill(0))
	}
	decided := true
	full := s.explore(limit, func() {
		j.paths++
		s.lossy = false
		ctx = &lctx{p: p, s: s, l: j.l}
		ctx.build()
		o := ctx.img.o
		for i, b := range ch.b {
			if ch.keep == nil || !ch.keep[i] {
				o.cells[ch.at+i] = bconst(uint64(b), 8)
			}
		}
		if ch.cut >= 0 {
			for len(o.cells) < ch.cut {
				o.cells = append(o.cells, s.source(fmt.Sprintf("extra %d", len(o.cells)), 8, 8))
			}
			o.cells = o.cells[:ch.cut]
			ctx.img = bslice{o, 0, ch.cut, ch.cut}
		}
		if fill != nil {
			for i, c := range o.cells {
				v, ok := c.(*bv)
				if !ok {
					continue
				}
				k := bconst(uint64(fill(i)), 8)
				for b := range v.b {
					if v.b[b] == bZero || v.b[b] == bOne {
						k.b[b] = v.b[b]
					}
				}
				o.cells[i] = k
			}
		}
		res := ctx.decode()
		var sk bval
		if t, ok := res.(btuple); ok {
			sk = t[0]
			res = t[len(t)-1]
		}
		switch res.(type) {
		case bnil:
			cpc := strings.HasPrefix(j.l.name, "wrapped cpc") // the compressed words are never read
			if ch.cut >= 0 && ch.cut < j.n && !cpc && missing(j.l, ch.cut) {
				if s.lossy {
					decided = false
					j.note("possibly accepted though bytes are missing", ch, how)
					return
				}
				j.note("accepted though bytes are missing", ch, how)
				return
			}
			if strings.Contains(j.l.name, "theta") { // the entries of a wrapped image are read late
				ctx.sk, ctx.skT = sk, s.tm.of(norm(j.l.decoder(p)).Signature.Results().At(0).Type())
				if seq, ok := ctx.method(ctx.sk, ctx.skT, "All").(bfunc); ok {
					s.call(seq.fn, []bval{bfunc{hook: func([]bval) bval { return bbool(true) }}}, seq.free, seq.tm)
				} else {
					decided = false
					j.note("unknown entries", ch, how)
				}
			}
			if cpc {
				t := s.tm.of(norm(j.l.decoder(p)).Signature.Results().At(0).Type())
				ctx.method(sk, t, "GetEstimate")
				ctx.method(sk, t, "GetLgK")
				ctx.method(sk, t, "GetLowerBound", bconst(1, 64))
				ctx.method(sk, t, "GetUpperBound", bconst(3, 64))
			}
			j.note("accepted", ch, how)
		case biface:
			j.note("rejected", ch, how)
		default:
			decided = false
			j.note("unknown result", ch, how)
		}
	}, func(st *bstop) {
		if st.kind == "panic" && s.lossy {
			st.kind = "possible panic" // where the contents may not allow what was assumed of them
		}
		if st.kind != "panic" {
			decided = false
		}
		j.note(st.kind+" "+st.msg+" "+p.Pos(st.at), ch, how)
	})
	if !full {
		decided = false
		j.note("too many", ch, how)
	}
	return decided
}
