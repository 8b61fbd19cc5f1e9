package main

import (
	"fmt"
	"os"
	"sort"
)

// Loops written differently. A value a loop computes is named by its initial
// value and the body of the loop over the names of the other variables. Two
// names that are not the same term may still stand for the same sequence of
// values: when the initial values are equal in every possible case, and the
// bodies are equal in every possible case given the same correspondence of the
// variables they use (coinduction to the depth of the names).

type coKey struct {
	a, b *Term
	cond *Node
}

// align rewrites the loops of x to the equal loops of y.
func (c *cmp) align(x, y, cond *Node) *Node {
	if c.codepth > 10 {
		return x
	}
	c.codepth++
	defer func() { c.codepth-- }()
	for pass := 0; pass < 6; pass++ {
		sub := map[*Term]*Node{}
		for _, op := range []string{"lpn", "finK", "bsum", "qcomp", "qflat"} {
			xs, ys := outerTerms(x, op), outerTerms(y, op)
			in := map[*Term]bool{}
			for _, b := range ys {
				in[b] = true
			}
			inX := map[*Term]bool{}
			for _, a := range xs {
				inX[a] = true
			}
			for _, a := range xs {
				if in[a] {
					continue
				}
				for _, b := range ys {
					if !inX[b] && c.sameBinder(a, b, cond) {
						sub[a] = c.e.asNode(b)
						break
					}
				}
			}
			if len(sub) > 0 {
				break
			}
		}
		if len(sub) == 0 {
			break
		}
		n := c.e.subst(x, sub)
		if n == x {
			break
		}
		x = n
		if x == y {
			break
		}
	}
	return x
}

// outerTerms lists the terms of an operation, without those inside the names
// of loops.
func outerTerms(n *Node, op string) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	seenN := map[*Node]bool{}
	var wt func(*Term)
	var wn func(*Node)
	wt = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == op {
			out = append(out, t)
		}
		if t.op == "lpn" {
			return
		}
		for _, a := range t.args {
			wt(a)
		}
		for _, m := range t.poly {
			for _, g := range m.f {
				wt(g)
			}
		}
		for _, k := range t.nodes {
			wn(k)
		}
	}
	wn = func(n *Node) {
		if seenN[n] {
			return
		}
		seenN[n] = true
		if n.term != nil {
			wt(n.term)
			return
		}
		wt(n.atom)
		wn(n.hi)
		wn(n.lo)
	}
	wn(n)
	return out
}

func (c *cmp) sameBinder(a, b *Term, cond *Node) bool {
	if a == b {
		return true
	}
	if a.op != b.op || a.sort != b.sort || (a.num == nil) != (b.num == nil) || a.num != nil && a.num.Cmp(b.num) != 0 || len(a.args) != len(b.args) {
		return false
	}
	k := coKey{a, b, cond}
	if r, ok := c.comemo[k]; ok {
		return r
	}
	if c.comemo == nil {
		c.comemo = map[coKey]bool{}
	}
	c.comemo[k] = false
	r := c.sameBinder1(a, b, cond)
	c.comemo[k] = r
	return r
}

func (c *cmp) sameBinder1(a, b *Term, cond *Node) bool {
	e := c.e
	same := func(x, y *Node) bool {
		s0 := e.steps
		msg, ok := c.equalUnder(x, y, cond)
		if os.Getenv("VDEBUG") == "steps" && e.steps-s0 > 100000 {
			fmt.Printf("[%d] %s %s %v %d steps, %d %d %d nodes\n", c.codepth, a.op, a.sort, ok, e.steps-s0, size(x), size(y), size(cond))
		}
		if !ok && os.Getenv("VDEBUG") == "coind" {
			fmt.Printf("[%d] %s %s: %s\n", c.codepth, a.op, a.sort, msg)
		}
		return ok
	}
	for i := range a.args {
		if !same(e.asNode(a.args[i]), e.asNode(b.args[i])) {
			return false
		}
	}
	if a.op != "lpn" {
		return len(a.nodes) == 1 && len(b.nodes) == 1 && same(a.nodes[0], b.nodes[0])
	}
	if !same(a.nodes[0], b.nodes[0]) {
		return false
	}
	if len(a.nodes) < 2 || len(b.nodes) < 2 {
		return true
	}
	x, y := a.nodes[1], b.nodes[1]
	us, vs := outerTerms(x, "lps"), outerTerms(y, "lps")
	inY, inX := map[*Term]bool{}, map[*Term]bool{}
	for _, v := range vs {
		inY[v] = true
	}
	for _, u := range us {
		inX[u] = true
	}
	sub := map[*Term]*Node{}
	for _, u := range us {
		if inY[u] {
			continue
		}
		for _, v := range vs {
			if !inX[v] && u.sort == v.sort && u.str == v.str && c.sameBinder(u.args[0], v.args[0], cond) {
				sub[u] = e.asNode(v)
				break
			}
		}
		if sub[u] == nil {
			return false
		}
	}
	x = e.subst(x, sub)
	// the values of the variables matter by their place only: a name and its
	// refinements are compared once
	ph := map[*Term]*Node{}
	us = outerTerms(x, "lps")
	for _, v := range append(outerTerms(y, "lps"), us...) {
		ph[v] = nil
	}
	vs = vs[:0]
	for v := range ph {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool {
		p, q := vs[i].args[0].nodes[0], vs[j].args[0].nodes[0]
		if p != q {
			return p.id < q.id
		}
		if vs[i].sort != vs[j].sort {
			return vs[i].sort < vs[j].sort
		}
		if vs[i].str != vs[j].str {
			return vs[i].str < vs[j].str
		}
		return vs[i].args[0].id < vs[j].args[0].id
	})
	for i, v := range vs {
		ph[v] = e.asNode(e.mk(&Term{op: "lph", sort: v.sort, str: fmt.Sprint(v.str, i)}))
	}
	x, y = e.subst(x, ph), e.subst(y, ph)
	k := [3]*Node{x, y, cond}
	if r, ok := c.bodies[k]; ok {
		return r
	}
	if c.bodies == nil {
		c.bodies = map[[3]*Node]bool{}
	}
	r := same(x, y)
	c.bodies[k] = r
	return r
}

func size(n *Node) int {
	seen := map[*Node]bool{}
	var w func(*Node)
	w = func(n *Node) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		w(n.hi)
		w(n.lo)
	}
	w(n)
	return len(seen)
}
