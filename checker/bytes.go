package main

// Bytes: words read from and written to slices of bytes, most significant first.

import (
	"fmt"
	"go/types"
	"math/big"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	for _, n := range []int{2, 4, 8} {
		s := map[int]Sort{2: SU16, 4: SU32, 8: SU64}[n]
		name := fmt.Sprintf("int%d", 8*n)
		for _, le := range []bool{false, true} {
			recv := "encoding/binary.bigEndian."
			if le {
				recv = "encoding/binary.littleEndian."
			}
			models[recv+"Ui"+name[1:]] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
				e := m.e
				r := e.cint(s, 0)
				for i, ad := range m.places(a[len(a)-1].(*SliceV), n) {
					k := n - 1 - i
					if le {
						k = i
					}
					b := m.load(st, ad, types.Typ[types.Uint8]).(*Node)
					r = e.op("or", s, r, e.op("shl", s, e.op("cv", s, b), e.cint(SU64, int64(8*k))))
				}
				return r, st
			}
			models[recv+"PutUi"+name[1:]] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
				e := m.e
				for i, ad := range m.places(a[len(a)-2].(*SliceV), n) {
					k := n - 1 - i
					if le {
						k = i
					}
					b := e.op("cv", SU8, e.op("shr", s, N(a[len(a)-1]), e.cint(SU64, int64(8*k))))
					m.store(st, e.T, ad, types.Typ[types.Uint8], b)
				}
				return &Agg{}, st
			}
		}
	}
}

// places: the addresses of the first n elements.
func (m *Mach) places(s *SliceV, n int) (as []*Term) {
	for i := 0; i < n; i++ {
		ad := m.elemAddr(s, m.e.cint(SI64, int64(i)), types.Typ[types.Uint8])
		if ad.term == nil {
			undecided("bytes of a slice that is one of several")
		}
		as = append(as, ad.term)
	}
	return
}

// mask: the bits that may be set in t, nil if not known.
func (e *Eng) mask(t *Term) *big.Int {
	if t.isConst() {
		return t.num
	}
	if !t.sort.unsigned() {
		return nil
	}
	switch t.op {
	case "poly":
		m := new(big.Int)
		for _, x := range t.poly {
			var k *big.Int
			if len(x.f) == 0 {
				k = x.c
			} else if len(x.f) == 1 && new(big.Int).And(x.c, new(big.Int).Sub(x.c, one)).Sign() == 0 {
				if k = e.mask(x.f[0]); k == nil {
					return nil
				}
				k = new(big.Int).Mul(k, x.c)
			}
			if k == nil || k.Sign() < 0 || k.BitLen() > int(t.sort.width()) || new(big.Int).And(m, k).Sign() != 0 {
				return nil
			}
			m.Or(m, k)
		}
		return m
	case "cv":
		if y := t.args[0]; y.sort.unsigned() && y.sort.width() < t.sort.width() {
			if m := e.mask(y); m != nil {
				return m
			}
			return new(big.Int).Sub(p2(int(y.sort.width())), one)
		}
	case "and":
		for _, y := range t.args {
			if y.isConst() {
				return y.num
			}
		}
	case "stratlow":
		if t.args[0].op == "s" {
			_, m := apart(t.args[0].str)
			return m
		}
	case "or":
		m := new(big.Int)
		for _, y := range t.args {
			k := e.mask(y)
			if k == nil {
				return nil
			}
			m.Or(m, k)
		}
		return m
	case "gate":
		ls := leaves(t.nodes[0])
		if len(ls) > 64 {
			return nil
		}
		m := new(big.Int)
		for _, y := range ls {
			k := e.mask(y)
			if k == nil {
				return nil
			}
			m.Or(m, k)
		}
		return m
	}
	return nil
}

// bitSum: the sum of terms that have no bit in common, nil if they may.
func (e *Eng) bitSum(srt Sort, ts []*Term) *Node {
	if !srt.unsigned() {
		return nil
	}
	m := new(big.Int)
	for _, t := range ts {
		k := e.mask(t)
		if k == nil || new(big.Int).And(m, k).Sign() != 0 {
			return nil
		}
		m.Or(m, k)
	}
	r := e.cint(srt, 0)
	for _, t := range ts {
		r = e.op("add", srt, r, e.leaf(t))
	}
	return r
}

// listed writes a short list out element by element, nil if it cannot be.
func (e *Eng) listed(q *Term) *Term {
	switch q.op {
	case "upd", "qcomp", "qcat":
	default:
		return nil
	}
	n, ok := e.qlen(q).constInt()
	if !ok || n.Sign() <= 0 || n.Cmp(big.NewInt(80)) > 0 {
		return nil
	}
	if q.op == "qcat" {
		all := true
		for _, p := range q.args {
			all = all && p.op == "qunit"
		}
		if all {
			return nil
		}
	}
	var us []*Term
	for i := int64(0); i < n.Int64(); i++ {
		v := e.qsel(SU8, q, e.cint(SI64, i).term, "uint8")
		if v.term == nil || v.term.sort != SU8 {
			return nil
		}
		us = append(us, e.mk(&Term{op: "qunit", sort: SSeq, args: []*Term{v.term}}))
	}
	return e.qcat(us).term
}

// byteSlice is parameter i, a slice of n bytes, or of any number more.
func byteSlice(fn string, i, n int, longer bool) func(m *Mach, st *State) Val {
	return func(m *Mach, st *State) Val {
		p := m.prog.funcs[fn].Params[i]
		s := m.param(p.Name(), p.Type()).(*SliceV)
		var ws []*Node
		for j := 0; j < n; j++ {
			w := m.param(fmt.Sprintf("%s[%d]", p.Name(), j), types.Typ[types.Uint8]).(*Node)
			ws = append(ws, m.e.build("qunit", SSeq, "", nil, w))
		}
		c, ln := m.e.raw("qnil", SSeq, ""), m.e.cint(SI64, int64(n))
		if longer {
			ws, ln = append(ws, m.sliceContent(st, s)), m.e.op("add", SI64, ln, s.ln)
		}
		if len(ws) > 0 {
			c = m.e.build("qcat", SSeq, "", nil, ws...)
		}
		st.heap[m.contKey(s.base.term)] = c
		return &SliceV{s.base, m.e.cint(SI64, 0), ln}
	}
}

// lengths: a function of bytes for every length from lo to hi, and for all
// longer ones.
func lengths(i, lo, hi int, rest bool, fns ...string) []rule {
	var rs []rule
	for _, f := range fns {
		t := tg("uint256."+f, "uint256.zzSpec_"+f[len(f)-len(lastPart(f)):])
		t.cfg, t.args = wordCfg, map[int]func(m *Mach, st *State) Val{i: nil}
		n := hi - lo + 1
		if rest {
			n++
		}
		s := &sweep{t: t, n: n, arg: func(m *Mach, st *State, k int) Val { return byteSlice(t.fn, i, lo+k, lo+k > hi)(m, st) }}
		rs = append(rs, s)
	}
	return rs
}

func lastPart(f string) string {
	for i := len(f) - 1; i >= 0; i-- {
		if f[i] == '.' {
			return f[i+1:]
		}
	}
	return f
}

// byteStr: text of bytes; constant bytes are constant text.
func (e *Eng) byteStr(q *Term) *Node {
	if q.op == "strbytes" {
		return e.leaf(q.args[0])
	}
	if x := e.listed(q); x != nil {
		q = x
	}
	qs := []*Term{q}
	if q.op == "qcat" {
		qs = q.args
	} else if q.op == "qnil" {
		qs = nil
	}
	b := make([]byte, 0, len(qs))
	for _, u := range qs {
		if u.op != "qunit" || !u.args[0].isConst() {
			return e.leaf(e.mk(&Term{op: "bytestr", sort: SStr, args: []*Term{q}}))
		}
		b = append(b, byte(u.args[0].num.Int64()))
	}
	return e.cstr(string(b))
}

// byteText is parameter i, text of n bytes, or of any number more.
func byteText(fn string, i, n int, longer bool) func(m *Mach, st *State) Val {
	return func(m *Mach, st *State) Val {
		p := m.prog.funcs[fn].Params[i]
		var ws []*Node
		for j := 0; j < n; j++ {
			w := m.param(fmt.Sprintf("%s[%d]", p.Name(), j), types.Typ[types.Uint8]).(*Node)
			ws = append(ws, m.e.build("qunit", SSeq, "", nil, w))
		}
		if longer {
			ws = append(ws, m.e.build("strbytes", SSeq, "[]byte", nil, m.param(p.Name(), p.Type()).(*Node)))
		}
		c := m.e.raw("qnil", SSeq, "")
		if len(ws) > 0 {
			c = m.e.build("qcat", SSeq, "", nil, ws...)
		}
		return m.e.op("bytestr", SStr, c)
	}
}

// within: t is known to be within a range.
func (e *Eng) within(t *Term, r [2]*big.Int) {
	if e.lim == nil {
		e.lim = map[*Term][2]*big.Int{}
	}
	e.lim[t] = r
}

// lowBits: the lowest bits of a sum do not depend on what is shifted past them.
func (e *Eng) lowBits(srt Sort, rest []*Term, k *big.Int) *Node {
	n := k.BitLen()
	if new(big.Int).Add(k, one).BitLen() != n+1 || new(big.Int).And(k, new(big.Int).Add(k, one)).Sign() != 0 {
		return nil
	}
	for i, c := range rest {
		if !c.isConst() {
			continue
		}
		t := rest[1-i]
		for t.op == "cv" && t.args[0].sort.machine() && t.args[0].sort.unsigned() && int(t.sort.width()) >= n && int(t.args[0].sort.width()) >= n {
			t = t.args[0]
		}
		if t.op != "poly" || !t.sort.unsigned() {
			return nil
		}
		r, changed := e.cint(t.sort, 0), false
		for _, m := range t.poly {
			q := new(big.Int).And(m.c, k) // two's complement for negative ones
			if q.Sign() == 0 {
				changed = true
				continue
			}
			p := e.cbig(t.sort, m.c)
			for _, f := range m.f {
				p = e.op("mul", t.sort, p, e.leaf(f))
			}
			r = e.op("add", t.sort, r, p)
		}
		if !changed {
			return nil
		}
		return e.op("and", srt, e.op("cv", srt, r), e.leaf(c))
	}
	return nil
}

// eitherOf: the rule, or if it does not hold the one that replaces it.
type either struct{ a, b rule }

func eitherOf(as, bs []rule) (rs []rule) {
	for i := range as {
		rs = append(rs, &either{as[i], bs[i]})
	}
	return
}

func (r *either) name() string { return r.a.name() }

func (r *either) run(p *Prog, deadline time.Time) []*outcome {
	os := r.a.run(p, deadline)
	for _, o := range os {
		if o.status != "ok" {
			return r.b.run(p, deadline)
		}
	}
	return os
}

// charAt: a byte of a text, which may be a constant used as a table.
func (m *Mach) charAt(s, i *Node) *Node {
	if _, k := i.constInt(); !k && s.term != nil && s.term.op == "s" {
		m.texts[m.extSide]++
	}
	return m.e.op("strat", SU8, s, i)
}
