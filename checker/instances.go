package main

// A difference between two value graphs is only reported when it can be seen:
// constants put in place of all inputs have to reduce the two graphs to
// different constants. This never makes a difference, it only withdraws one
// that the normal form did not see through.

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"time"
)

// inputs of graphs: numbers and truth values of the entry state.
func (e *Eng) inputs(ns ...*Node) (vars []*Term, consts []*big.Int) {
	seen := map[*Term]bool{}
	seenC := map[string]bool{}
	for _, n := range ns {
		findTerms(n, func(t *Term) bool {
			if t.isConst() && t.num != nil && t.sort != SBool && len(consts) < 40 && !seenC[t.num.String()] {
				seenC[t.num.String()] = true
				consts = append(consts, t.num)
			}
			return false
		})
		for _, t := range findTerms(n, func(t *Term) bool {
			switch t.op {
			case "par", "in", "slen":
				return t.sort == SBool || t.sort.machine() || t.sort == SU256 || t.sort == SBig
			}
			return false
		}) {
			if !seen[t] {
				seen[t] = true
				vars = append(vars, t)
			}
		}
	}
	return
}

var words64 = func() (r []*big.Int) {
	for _, k := range []uint{1, 2, 4, 8, 16, 31, 32, 33, 62, 63, 64} {
		p := new(big.Int).Lsh(big.NewInt(1), k)
		for _, d := range []int64{-2, -1, 0, 1} {
			r = append(r, new(big.Int).Add(p, big.NewInt(d)))
		}
	}
	return append(r, big.NewInt(0), big.NewInt(0), big.NewInt(3), big.NewInt(10))
}()

// example picks a value for an input.
func (e *Eng) example(r *rand.Rand, t *Term, consts []*big.Int, before map[*Term]*Node) *Node {
	if t.sort == SBool {
		return e.cbool(r.Intn(2) == 0)
	}
	word := func() *big.Int {
		switch r.Intn(5) {
		case 0:
			return new(big.Int).SetUint64(r.Uint64())
		case 1:
			if len(consts) > 0 {
				c := consts[r.Intn(len(consts))]
				return new(big.Int).Add(c, big.NewInt(int64(r.Intn(3)-1)))
			}
			return big.NewInt(int64(r.Intn(70)))
		case 2:
			return big.NewInt(int64(r.Intn(300)))
		}
		return words64[r.Intn(len(words64))]
	}
	var v *big.Int
	if len(before) > 0 && r.Intn(3) == 0 {
		// close to another one
		k := r.Intn(len(before))
		for o, n := range before {
			if k == 0 && o.sort == t.sort {
				v = new(big.Int).Add(n.term.num, big.NewInt(int64(r.Intn(3)-1)))
				if t.sort == SU256 && r.Intn(2) == 0 {
					d := new(big.Int).Lsh(word(), uint(64*r.Intn(4)))
					v = new(big.Int).Xor(n.term.num, d)
				}
			}
			k--
		}
	}
	if v == nil {
		switch {
		case t.op == "slen":
			v = big.NewInt(int64(r.Intn(40)))
		case t.sort == SU256 || t.sort == SBig:
			switch r.Intn(4) {
			case 0:
				v = word()
			case 1:
				v = new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(257)))
				v = new(big.Int).Add(v, big.NewInt(int64(r.Intn(3)-1)))
			default:
				v = new(big.Int)
				for i := 0; i < 4; i++ {
					w := word()
					if r.Intn(3) == 0 {
						w = new(big.Int)
					}
					v = new(big.Int).Or(new(big.Int).Lsh(v, 64), new(big.Int).And(w, new(big.Int).SetUint64(^uint64(0))))
				}
			}
		default:
			v = word()
			if t.sort.signed() && r.Intn(2) == 0 {
				v = new(big.Int).Neg(v)
			}
		}
	}
	if l, ok := e.lim[t]; ok {
		w := new(big.Int).Sub(l[1], l[0])
		w.Add(w, big.NewInt(1))
		v = new(big.Int).Add(l[0], new(big.Int).Mod(new(big.Int).Sub(v, l[0]), w))
	}
	return e.cbig(t.sort, wrap(t.sort, new(big.Int).Set(v)))
}

// instance looks for constants that tell a from b where cond holds. It answers
// nothing (open) when they do not reduce to constants or cond is never met.
func (c *cmp) instance(a, b, cond *Node) (found, open bool) {
	e := c.e
	if c.bounded {
		return c.seen(a, b, cond)
	}
	vars, consts := e.inputs(a, b, cond)
	if len(vars) == 0 {
		return false, true
	}
	r := rand.New(rand.NewSource(1))
	constant := func(n *Node) bool {
		return n == e.T || n == e.F || n.term != nil && (n.term.isConst() || n.term.op == "none" || n.term.op == "qnil")
	}
	met := 0
	end := time.Now().Add(20 * time.Second)
	for i := 0; i < 3000 && time.Now().Before(end); i++ {
		sub := map[*Term]*Node{}
		order := map[*Term]*Node{}
		for _, v := range vars {
			n := e.example(r, v, consts, order)
			sub[v] = n
			if v.sort != SBool {
				order[v] = n
			}
		}
		q := e.subst(cond, sub)
		if q == e.F {
			continue
		}
		if q != e.T {
			return false, true
		}
		x, y := e.subst(a, sub), e.subst(b, sub)
		if !constant(x) || !constant(y) {
			return false, true
		}
		met++
		if x != y {
			return true, false
		}
	}
	if os.Getenv("VDEBUG") == "inst" {
		fmt.Println("instances:", met, "of", len(vars), "inputs")
	}
	if met < 100 {
		return false, true
	}
	return false, false
}

// seen is instance where values the analysis does not look into remain: results
// of calls, parts of them, places of the effects. Those are kept as they are, the
// same ones on both sides, except that what a condition hangs on gets a value. The
// two graphs agree in an instance when they become the same.
func (c *cmp) seen(a, b, cond *Node) (found, open bool) {
	e := c.e
	var consts []*big.Int
	var texts []*Term
	seenC := map[string]bool{}
	for _, n := range []*Node{cond, a, b} {
		findTerms(n, func(t *Term) bool {
			if t.isConst() && t.num != nil && t.sort != SBool && len(consts) < 40 && !seenC[t.num.String()] {
				seenC[t.num.String()] = true
				consts = append(consts, t.num)
			}
			if t.op == "s" && len(texts) < 20 && !seenC["s"+t.str] {
				seenC["s"+t.str] = true
				texts = append(texts, t)
			}
			return false
		})
	}
	r := rand.New(rand.NewSource(1))
	met, tried := 0, 0
	end := time.Now().Add(30 * time.Second)
	order := map[*Term]*Node{}
	// values for what the conditions of n hang on, until there are none left
	settle := func(n *Node, sub map[*Term]*Node) (*Node, bool) {
		for round := 0; round < 400; round++ {
			// down the path the values take
			c := &substCtx{m: sub, terms: map[*Term]*Node{}, nodes: map[*Node]*Node{}}
			full := func(n *Node) *Node {
				n = e.substN(c, n)
				for i := 0; i < 12; i++ {
					o := n
					if n = e.subst(n, sub); n == o {
						break
					}
				}
				return n
			}
			var in []*Term
			for n.term == nil && in == nil {
				switch a := full(e.asNode(n.atom)); a {
				case e.T:
					n = n.hi
				case e.F:
					n = n.lo
				default:
					if in = e.hangsOn(a); len(in) == 0 {
						return n, false
					}
				}
			}
			if n.term != nil {
				n = full(n)
				in = e.hangsOn(n)
			}
			if len(in) == 0 {
				return n, n.term != nil
			}
			for _, t := range in {
				if sub[t] != nil {
					continue
				}
				if t.sort == SStr {
					if len(texts) == 0 {
						return n, false
					}
					sub[t] = e.leaf(texts[r.Intn(len(texts))])
					continue
				}
				v := e.example(r, t, consts, order)
				if t.op == "slen" || t.op == "qlen" {
					v = e.cint(t.sort, int64(r.Intn(4)))
				}
				sub[t] = v
				if t.sort != SBool {
					order[t] = v
				}
			}
		}
		return n, false
	}
	for ; tried < 4000 && met < 400 && time.Now().Before(end); tried++ {
		sub := map[*Term]*Node{}
		clear(order)
		q, ok := settle(cond, sub)
		if !ok {
			if os.Getenv("VDEBUG") == "inst" {
				fmt.Println("instances: open condition", clip(q.String()))
			}
			return false, true
		}
		if q == e.F {
			continue
		}
		x, ok1 := settle(a, sub)
		y, ok2 := settle(b, sub)
		if !ok1 || !ok2 || q != e.T {
			return false, true
		}
		met++
		// the values given while settling the second
		if x, y = e.subst(x, sub), e.subst(y, sub); x != y {
			if os.Getenv("VDEBUG") == "inst" {
				fmt.Println("instances: seen", clip(x.String()), clip(y.String()))
			}
			return true, false
		}
	}
	if os.Getenv("VDEBUG") == "inst" {
		fmt.Println("instances: same in", met, "of", tried)
	}
	return false, met < 60
}

// hangsOn lists the values the conditions within n depend on: those that do not
// contain others.
func (e *Eng) hangsOn(n *Node) (in []*Term) {
	done := map[*Term]bool{}
	value := func(t *Term) bool {
		return t.sort == SBool || t.sort.machine() || t.sort == SU256 || t.sort == SBig || t.sort == SStr
	}
	for _, t := range findTerms(n, func(t *Term) bool { return t.sort == SBool && t != e.T.term && t != e.F.term }) {
		var w, w1 func(t *Term) bool
		seen := map[*Term]bool{}
		w = func(t *Term) bool {
			if r, ok := seen[t]; ok {
				return r
			}
			r := w1(t)
			seen[t] = r
			return r
		}
		w1 = func(t *Term) bool {
			if t.isConst() || t.op == "s" {
				return false
			}
			any := false
			for _, a := range t.args {
				any = w(a) || any
			}
			for _, m := range t.poly {
				for _, f := range m.f {
					any = w(f) || any
				}
			}
			if any {
				return true
			}
			switch {
			case t.op == "par", t.op == "in", t.op == "slen", t.op == "sel", t.op == "rd", t.op == "mget", t.op == "qlen",
				t.op == "rf", t.op == "out", t.op == "var", t.op == "lpv":
				if value(t) {
					if !done[t] {
						done[t] = true
						in = append(in, t)
					}
					return true
				}
			}
			return false
		}
		w(t)
	}
	sort.Slice(in, func(i, j int) bool { return in[i].id < in[j].id })
	return
}
