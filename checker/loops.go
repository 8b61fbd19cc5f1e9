package main

// Loops. A loop becomes a system of recurrences over the variables it changes;
// recurrences with a closed form are solved, the others get a name that depends
// only on their initial value and their step.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type lvar struct {
	v    *Term
	init *Node
	step *Node
	val  *Node // value in iteration K
	srt  Sort
}

type slotMode int

const (
	sInv slotMode = iota
	sVar
)

type slot struct {
	phi  *ssa.Phi
	key  *Term
	ty   types.Type
	mode slotMode
	init Val
	abs  *absVal
}

// absVal mirrors the structure of a value carried around a loop.
type absVal struct {
	kind  byte // 's' scalar, 'g' aggregate, 'q' slice, 'p' pointer by value
	v     *lvar
	parts []*absVal
	hdr   *Term // object standing for the pointee
	ty    types.Type
}

func (m *Mach) outUses(body map[*ssa.BasicBlock]bool) []ssa.Value {
	var out []ssa.Value
	for b := range body {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !body[r.Block()] {
					out = append(out, v)
					break
				}
			}
		}
	}
	return out
}

func (m *Mach) loop(f *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st *State, init phiEnv) []*edge {
	m.nloop++
	if out, ok := m.unroll(f, h, body, st, init); ok {
		return out
	}
	if m.cutK > 0 {
		return m.cutLoop(f, h, body, st, init)
	}
	if out, ok := m.search(f, h, body, st, init); ok {
		return out
	}
	return m.symbolic(f, h, body, st, init)
}

// unroll runs a loop whose number of iterations is a constant.
func (m *Mach) unroll(f *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st *State, init phiEnv) ([]*edge, bool) {
	e := m.e
	env := init
	cur := st.clone()
	var outs []*edge
	uses := m.outUses(body)
	type snap struct {
		c    *Node
		vals map[ssa.Value]Val
	}
	var snaps []snap
	nd := len(f.defers)
	stable := map[*ssa.Phi]*Node{}
	limit := m.prog.maxUnroll
	if m.cfg.unroll > 0 {
		limit = m.cfg.unroll
	}
	for it := 0; it < limit; it++ {
		counter := false
		for p, v := range env {
			n, ok := v.(*Node)
			if !ok {
				continue
			}
			if _, ok := n.constInt(); ok {
				if o, seen := stable[p]; !seen && it == 0 || seen && o != n {
					counter = true
				}
				stable[p] = n
			}
		}
		if !counter {
			f.defers = f.defers[:nd]
			return nil, false
		}
		exits := m.region(f, body, h, cur, env)
		// the decision to go on must be known
		known := false
		for b := range body {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || body[b.Succs[0]] && body[b.Succs[1]] {
				continue
			}
			if v, ok := f.vals[iff.Cond].(*Node); ok && v.term != nil {
				known = true
			}
		}
		if !known {
			f.defers = f.defers[:nd]
			return nil, false
		}
		var backs []*edge
		xr := e.F
		for _, x := range exits {
			if x.to == h {
				backs = append(backs, x)
			} else {
				outs = append(outs, x)
				xr = e.or(xr, x.st.reach)
			}
		}
		if xr != e.F {
			vs := map[ssa.Value]Val{}
			for _, u := range uses {
				if v, ok := f.vals[u]; ok {
					vs[u] = v
				}
			}
			snaps = append(snaps, snap{xr, vs})
		}
		if len(backs) == 0 {
			for _, u := range uses {
				var v Val
				for i := len(snaps) - 1; i >= 0; i-- {
					w, ok := snaps[i].vals[u]
					if !ok {
						continue
					}
					if v == nil {
						v = w
					} else {
						v = m.iteVal(snaps[i].c, w, v)
					}
				}
				if v != nil {
					f.vals[u] = v
				}
			}
			return outs, true
		}
		var sts []*State
		for _, b := range backs {
			sts = append(sts, b.st)
		}
		nxt := m.merge(sts)
		ne := phiEnv{}
		for p := range env {
			ne[p] = m.phiVal(f, p, h, backs, nxt)
		}
		env, cur = ne, nxt
	}
	f.defers = f.defers[:nd]
	return nil, false
}

// cutLoop follows the first iterations of a loop only; m.cut collects the
// conditions under which there are more.
func (m *Mach) cutLoop(f *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st *State, init phiEnv) []*edge {
	e := m.e
	env := init
	cur := st.clone()
	var outs []*edge
	uses := m.outUses(body)
	var conds []*Node
	var snaps []map[ssa.Value]Val
	for it := 0; it <= m.cutK; it++ {
		exits := m.region(f, body, h, cur, env)
		var backs []*edge
		xr := e.F
		for _, x := range exits {
			if x.to == h {
				backs = append(backs, x)
			} else {
				outs = append(outs, x)
				xr = e.or(xr, x.st.reach)
			}
		}
		if xr != e.F {
			vs := map[ssa.Value]Val{}
			for _, u := range uses {
				if v, ok := f.vals[u]; ok {
					vs[u] = v
				}
			}
			conds, snaps = append(conds, xr), append(snaps, vs)
		}
		if len(backs) == 0 {
			break
		}
		var sts []*State
		for _, b := range backs {
			sts = append(sts, b.st)
		}
		nxt := m.merge(sts)
		if it == m.cutK {
			m.cut = e.or(m.cut, nxt.reach)
			break
		}
		ne := phiEnv{}
		for p := range env {
			ne[p] = m.phiVal(f, p, h, backs, nxt)
		}
		env, cur = ne, nxt
	}
	for _, u := range uses {
		var v Val
		for i := len(snaps) - 1; i >= 0; i-- {
			w, ok := snaps[i][u]
			if !ok {
				continue
			}
			if v == nil {
				v = w
			} else {
				v = m.iteVal(conds[i], w, v)
			}
		}
		if v != nil {
			f.vals[u] = v
		}
	}
	return outs
}

func (m *Mach) freshVar(s Sort, init *Node) *lvar {
	m.nvar++
	t := m.e.mk(&Term{op: "var", sort: s, str: fmt.Sprintf("v%d", m.nvar)})
	return &lvar{v: t, init: init, srt: s}
}

func nodeSort(n *Node) Sort { return leaves(n)[0].sort }

// abstract makes a loop variable of v.
func (m *Mach) abstract(st *State, v Val, ty types.Type, lv *[]*lvar) *absVal {
	e := m.e
	switch x := v.(type) {
	case *Node:
		if p, ok := ty.Underlying().(*types.Pointer); ok && boxable(p.Elem()) {
			a := &absVal{kind: 'p', ty: p.Elem()}
			c := m.loadN(st, x, p.Elem())
			a.parts = []*absVal{m.abstract(st, c, p.Elem(), lv)}
			return a
		}
		s, ok := leafSort(ty)
		if !ok {
			s = nodeSort(x)
		}
		l := m.freshVar(s, x)
		*lv = append(*lv, l)
		return &absVal{kind: 's', v: l, ty: ty}
	case *Agg:
		ts, _ := components(ty)
		a := &absVal{kind: 'g', ty: ty}
		for i, y := range x.f {
			a.parts = append(a.parts, m.abstract(st, y, ts[i], lv))
		}
		return a
	case *SliceV:
		l := m.freshVar(SSeq, m.sliceContent(st, x))
		*lv = append(*lv, l)
		return &absVal{kind: 'q', v: l, ty: ty}
	}
	_ = e
	undecided("loop variable of %T", v)
	return nil
}

// boxable: pointees carried by value around a loop.
func boxable(t types.Type) bool {
	if isUint256(t) || isBigInt(t) {
		return true
	}
	return false
}

// concrete builds the value an abstraction stands for, variables given by val.
func (m *Mach) concrete(st *State, a *absVal, val func(*lvar) *Node) Val {
	e := m.e
	switch a.kind {
	case 's':
		n := val(a.v)
		if a.v.srt == SRef && a.ty != nil {
			m.noteRefs(n, a.ty)
		}
		return n
	case 'g':
		g := &Agg{}
		for _, p := range a.parts {
			g.f = append(g.f, m.concrete(st, p, val))
		}
		return g
	case 'q':
		n := val(a.v)
		el := a.ty.Underlying().(*types.Slice).Elem()
		return m.newSlice(st, el, n, e.op("qlen", SI64, n))
	case 'p':
		o := m.newAlloc(a.ty, "h")
		a.hdr = o
		m.store(st, e.T, o, a.ty, m.concrete(st, a.parts[0], val))
		return e.leaf(o)
	}
	return nil
}

// readBack collects the contents of v in the order of a's variables.
func (m *Mach) readBack(st *State, a *absVal, v Val, set func(*lvar, *Node)) {
	switch a.kind {
	case 's':
		n, ok := v.(*Node)
		if !ok {
			undecided("loop variable changes shape")
		}
		set(a.v, n)
	case 'g':
		g, ok := v.(*Agg)
		if !ok {
			undecided("loop variable changes shape")
		}
		for i, p := range a.parts {
			m.readBack(st, p, g.f[i], set)
		}
	case 'q':
		sv, ok := v.(*SliceV)
		if !ok {
			undecided("loop variable changes shape")
		}
		set(a.v, m.sliceContent(st, sv))
	case 'p':
		m.readBack(st, a.parts[0], m.loadN(st, v.(*Node), a.ty), set)
	}
}

// box replaces references to objects born after b0 by boxes holding their contents.
func (m *Mach) box(st *State, n *Node, b0 int) *Node { return m.boxW(st, n, b0, 0) }

func (m *Mach) boxW(st *State, n *Node, b0 int, depth int) *Node {
	if depth > 8 {
		undecided("objects nested too deeply")
	}
	ts := findTerms(n, func(t *Term) bool { return t.op == "alloc" && m.birth[t] > b0 })
	if len(ts) == 0 {
		return n
	}
	sub := map[*Term]*Node{}
	for _, t := range ts {
		ty := m.typ[t]
		if ty == nil {
			continue
		}
		var c *Node
		if bk, ok := ty.(*backing); ok {
			_ = bk
			c = m.content(st, t)
		} else if _, ok := ty.Underlying().(*types.Map); ok {
			c = m.node(st, m.mapKey(t))
		} else if isBigArray(ty) {
			c = m.content(st, t)
		} else {
			c = m.pack(m.load(st, t, ty), ty)
		}
		c = m.boxW(st, c, b0, depth+1)
		sub[t] = m.e.mapLeaves(c, func(x *Term) *Node {
			b := m.e.mk(&Term{op: "box", sort: SRef, str: typeName2(ty), args: []*Term{x}})
			m.setType(b, ty)
			return m.e.leaf(b)
		})
	}
	return m.e.subst(n, sub)
}

func typeName2(t types.Type) string {
	if b, ok := t.(*backing); ok {
		return "[]" + typeName(b.elem)
	}
	return typeName(t)
}

func (m *Mach) symbolic(f *frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, st *State, init phiEnv) []*edge {
	e := m.e
	m.nsolve++
	m.depth++
	defer func() { m.depth-- }()
	nd := len(f.defers)

	var slots []*slot
	for _, in := range h.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		s := &slot{phi: p, ty: p.Type(), init: init[p]}
		switch x := s.init.(type) {
		case *Node:
			if so, ok := leafSort(s.ty); ok && so != SRef {
				s.mode = sVar
			}
			_ = x
		}
		slots = append(slots, s)
	}
	var lvs []*lvar
	var C *Node
	for round := 0; ; round++ {
		if round > 16 {
			undecided("%s: loop does not stabilise", f.fn)
		}
		lvs = nil
		b0 := m.nalloc
		hs := &State{e.T, st.clone().heap}
		env := phiEnv{}
		hdrs := map[*Term]*absVal{}
		// header
		var build func(s *slot) Val
		build = func(s *slot) Val {
			if s.mode == sInv {
				return s.init
			}
			s.abs = m.abstract(st, s.init, s.ty, &lvs)
			v := m.concrete(hs, s.abs, func(l *lvar) *Node { return e.asNode(l.v) })
			var reg func(a *absVal)
			reg = func(a *absVal) {
				if a.hdr != nil {
					hdrs[a.hdr] = a
				}
				for _, p := range a.parts {
					reg(p)
				}
			}
			reg(s.abs)
			return v
		}
		for _, s := range slots {
			v := build(s)
			if s.phi != nil {
				env[s.phi] = v
			} else {
				hs.heap[s.key] = v
			}
		}
		b1 := m.nalloc
		before := hs.clone()
		f.defers = f.defers[:nd]
		exits := m.region(f, body, h, hs.clone(), env)
		var backs []*edge
		var sts []*State
		for _, x := range exits {
			if x.to == h {
				backs = append(backs, x)
				sts = append(sts, x.st)
			}
		}
		if len(backs) == 0 {
			f.defers = f.defers[:nd]
			return m.region(f, body, h, st.clone(), init)
		}
		back := m.merge(sts)
		C = back.reach
		changed := false
		for _, s := range slots {
			if s.phi == nil {
				continue
			}
			nv := m.phiVal(f, s.phi, h, backs, back)
			if s.mode == sInv {
				if !m.sameUnder(nv, s.init, C) {
					s.mode = sVar
					changed = true
				}
				continue
			}
			m.readBack(back, s.abs, nv, func(l *lvar, n *Node) { l.step = n })
		}
		vset := map[*Term]bool{}
		for _, l := range lvs {
			vset[l.v] = true
		}
		bykey := map[*Term]*slot{}
		for _, s := range slots {
			if s.key != nil {
				bykey[s.key] = s
			}
		}
		for _, k := range sortedKeys(back.heap) {
			nv := back.heap[k]
			if s, ok := bykey[k]; ok {
				if s.mode == sInv {
					undecided("slot mode")
				}
				m.readBack(back, s.abs, nv, func(l *lvar, n *Node) { l.step = n })
				continue
			}
			if a := rootOf(k); a != nil && m.birth[a] > b0 {
				if ha, ok := hdrs[a]; ok {
					// written through the pointer: it must not be visible under another name
					if old, ok := before.heap[k]; ok && !m.sameUnder(nv, old, C) {
						m.ownedInit(slots, ha)
					}
				}
				continue
			}
			old, had := before.heap[k]
			if !had {
				old = m.absent(before, k)
			}
			if m.sameUnder(nv, old, C) {
				continue
			}
			if e.mentions(e.leaf(k), vset) {
				undecided("%s: loop writes to a computed place (%s)", f.fn, k)
			}
			ty := m.typ[k]
			if ty == nil {
				ty = m.cellType(k, old)
			}
			iv, ok := st.heap[k]
			if !ok {
				iv = m.absent(st, k)
			}
			slots = append(slots, &slot{key: k, ty: ty, mode: sVar, init: iv})
			changed = true
		}
		if !changed {
			for _, l := range lvs {
				if l.step == nil {
					l.step = e.asNode(l.v)
				}
				l.step = e.restrict(m.box(back, l.step, b1), C)
			}
			break
		}
	}
	K := m.kvar()
	N, A := m.solve(f, lvs, C, K)
	// the last, incomplete iteration
	fs := st.clone()
	env := phiEnv{}
	atN := func(n *Node) *Node { return e.subst(n, map[*Term]*Node{K: N}) }
	for _, s := range slots {
		v := s.init
		if s.mode == sVar {
			v = m.concrete(fs, s.abs, func(l *lvar) *Node { return atN(l.val) })
		}
		if s.phi != nil {
			env[s.phi] = v
		} else {
			fs.heap[s.key] = v
		}
	}
	if e.restrict(A, fs.reach) == e.F {
		undecided("%s: loop without end", f.fn)
	}
	f.defers = f.defers[:nd]
	exits := m.region(f, body, h, fs, env)
	var out []*edge
	for _, x := range exits {
		if x.to == h {
			continue
		}
		x.st.reach = e.and(st.reach, e.restrict(x.st.reach, e.and(st.reach, A)))
		out = append(out, x)
	}
	return out
}

func rootOf(k *Term) *Term {
	for {
		switch k.op {
		case "alloc":
			return k
		case "fld", "idx", "cont", "mapc", "aview":
			k = k.args[0]
			continue
		}
		return nil
	}
}

func (m *Mach) kvar() *Term {
	return m.e.mk(&Term{op: "var", sort: SI64, str: "K", num: big.NewInt(int64(m.depth))})
}

// cellType finds the type of a content cell.
func (m *Mach) cellType(k *Term, v Val) types.Type {
	n, ok := v.(*Node)
	if !ok {
		undecided("type of cell %s", k)
	}
	return &sortType{srt: nodeSort(n)}
}

// sortType is the type of a cell that is not a Go variable.
type sortType struct {
	srt Sort
}

func (s *sortType) Underlying() types.Type { return s }
func (s *sortType) String() string         { return s.srt.String() }

func (m *Mach) sameUnder(a, b Val, c *Node) bool {
	if sameVal(a, b) {
		return true
	}
	return sameVal(m.cond(a, c), m.cond(b, c))
}

// cond is v where c holds and a fixed nothing elsewhere.
func (m *Mach) cond(v Val, c *Node) Val {
	return m.mapVal(v, func(n *Node) *Node {
		return m.e.ite(c, n, m.e.raw("none", SAny, ""))
	})
}

func (m *Mach) ownedInit(slots []*slot, a *absVal) {
	var inits []*Term
	for _, s := range slots {
		if s.abs == nil || s.mode != sVar {
			continue
		}
		n, ok := s.init.(*Node)
		if !ok || s.abs.kind != 'p' {
			continue
		}
		for _, t := range leaves(n) {
			for _, o := range inits {
				if o == t {
					undecided("two loop variables share an object that the loop writes")
				}
			}
			inits = append(inits, t)
			if s.abs == a && !local(t) {
				undecided("the loop writes to an object through a pointer that also moves (%s)", t)
			}
		}
	}
}

// solve finds the value of every variable in iteration K, and the number of
// iterations. A is what is known when the loop ends.
func (m *Mach) solve(f *frame, lvs []*lvar, C *Node, K *Term) (*Node, *Node) {
	e := m.e
	solved := map[*Term]*Node{}
	unsolvedSet := func() map[*Term]bool {
		u := map[*Term]bool{}
		for _, l := range lvs {
			if l.val == nil {
				u[l.v] = true
			}
		}
		return u
	}
	for _, l := range lvs {
		if m.sameUnder(l.step, e.asNode(l.v), C) {
			l.val = l.init
			solved[l.v] = l.val
		}
	}
	kn := e.leaf(K)
	for progress := true; progress; {
		progress = false
		u := unsolvedSet()
		for _, l := range lvs {
			if l.val != nil {
				continue
			}
			T := e.subst(l.step, solved)
			if v := m.closed(l, T, C, u, solved, K); v != nil {
				l.val = v
				solved[l.v] = v
				progress = true
				break
			}
		}
	}
	// names for the rest
	var rest []*lvar
	for _, l := range lvs {
		if l.val == nil {
			rest = append(rest, l)
		}
	}
	CK := e.subst(C, solved)
	zeros := map[*lvar]*Node{}
	if len(rest) > 0 {
		zeros = m.fromZero(rest, C, solved)
	}
	sub0 := map[*Term]*Node{} // with totals counted from zero
	start := map[*lvar]*Node{}
	for _, l := range rest {
		start[l] = l.init
		if z := zeros[l]; z != nil {
			start[l] = z
			sub0[l.v] = m.plus(l, l.init, e.asNode(l.v))
		}
	}
	if len(sub0) > 0 {
		CK = e.subst(CK, sub0)
	}
	for _, l := range rest {
		if m.named[m.extSide] == nil {
			m.named[m.extSide] = map[*Node]int{}
		}
		m.named[m.extSide][start[l]]++
	}
	if len(rest) > 0 {
		none := e.raw("none", SAny, "")
		names := map[*lvar]*Term{}
		steps := map[*lvar]*Node{}
		for _, l := range rest {
			names[l] = e.mk(&Term{op: "lpn", sort: l.srt, nodes: []*Node{start[l]}})
			// outside C the step does not matter
			step := e.subst(l.step, solved)
			if zeros[l] != nil {
				step = m.plus(l, e.asNode(l.v), m.gain(l, step, e.subst(C, solved)))
			}
			if len(sub0) > 0 {
				own := map[*Term]*Node{}
				for v, n := range sub0 {
					if v != l.v {
						own[v] = n
					}
				}
				step = e.subst(step, own)
			}
			steps[l] = e.ite(CK, step, none)
			_ = none
		}
		// a name describes the system of the variables it depends on, refined
		// until no further ones can be told apart
		deps := map[*lvar]map[*lvar]bool{}
		for _, l := range rest {
			deps[l] = map[*lvar]bool{l: true}
			for _, o := range rest {
				if e.mentions(steps[l], map[*Term]bool{o.v: true}) {
					deps[l][o] = true
				}
			}
		}
		for grown := true; grown; {
			grown = false
			for _, l := range rest {
				for o := range deps[l] {
					for q := range deps[o] {
						if !deps[l][q] {
							deps[l][q], grown = true, true
						}
					}
				}
			}
		}
		final := map[*lvar]*Term{}
		stable := map[*lvar]int{}
		classes := func(l *lvar) int {
			seen := map[*Term]bool{}
			for o := range deps[l] {
				seen[names[o]] = true
			}
			return len(seen)
		}
		for r := 0; len(final) < len(rest); r++ {
			next := map[*lvar]*Term{}
			before := map[*lvar]int{}
			for _, l := range rest {
				before[l] = classes(l)
				sub := map[*Term]*Node{}
				for _, o := range rest {
					if o == l {
						sub[o.v] = e.asNode(e.mk(&Term{op: "lps", sort: l.srt, str: "self", args: []*Term{names[o]}}))
					} else {
						sub[o.v] = e.asNode(e.mk(&Term{op: "lps", sort: o.srt, args: []*Term{names[o]}}))
					}
				}
				s := e.subst(steps[l], sub)
				b, _ := e.bindK(s, K)
				next[l] = e.mk(&Term{op: "lpn", sort: l.srt, nodes: []*Node{start[l], b}})
			}
			names = next
			for _, l := range rest {
				if final[l] != nil {
					continue
				}
				k := classes(l)
				if k != before[l] {
					delete(stable, l)
				} else if _, ok := stable[l]; !ok {
					stable[l] = r
				}
				// every step of the system is described by then
				if s, ok := stable[l]; ok && r > 0 && r >= s+k-1 {
					final[l] = names[l]
				}
			}
		}
		names = final
		for _, l := range rest {
			l.val = e.asNode(e.mk(&Term{op: "lpv", sort: l.srt, args: []*Term{names[l], K}}))
			if zeros[l] != nil {
				l.val = m.plus(l, l.init, l.val)
			}
			solved[l.v] = l.val
		}
		// values found before may mention the variables named now
		for _, l := range lvs {
			l.val = e.subst(l.val, solved)
		}
		CK = e.subst(C, solved)
	}
	if len(rest) > 0 {
		m.named[m.extSide][CK]++
	}
	if n := m.tripCount(CK, K); n != nil {
		A := e.not(e.subst(CK, map[*Term]*Node{K: n}))
		return n, A
	}
	b, lv := e.bindK(CK, K)
	n := e.leaf(e.mk(&Term{op: "finK", sort: SI64, num: big.NewInt(int64(lv)), nodes: []*Node{b}}))
	_ = kn
	return n, e.not(e.subst(CK, map[*Term]*Node{K: n}))
}

// fromZero finds the totals: variables to which every iteration adds something
// that does not depend on what they are. They are counted from zero, and what
// they start with is added at the end.
func (m *Mach) fromZero(rest []*lvar, C *Node, solved map[*Term]*Node) map[*lvar]*Node {
	e := m.e
	zeros := map[*lvar]*Node{}
	c := e.subst(C, solved)
	for _, l := range rest {
		d := m.gain(l, e.subst(l.step, solved), c)
		if d == nil || e.mentions(d, map[*Term]bool{l.v: true}) {
			continue
		}
		if l.srt == SSeq {
			zeros[l] = e.raw("qnil", SSeq, "")
		} else {
			zeros[l] = e.op("sub", l.srt, l.init, l.init)
		}
	}
	return zeros
}

// gain is what a step adds to its variable.
func (m *Mach) gain(l *lvar, step, c *Node) *Node {
	e := m.e
	step = e.restrict(step, c)
	switch {
	case l.srt.machine() || l.srt == SU256 || l.srt == SBig:
		return e.op("sub", l.srt, step, e.asNode(l.v))
	case l.srt == SSeq:
		ok := true
		part := e.mapLeaves(step, func(t *Term) *Node {
			if t == l.v {
				return e.raw("qnil", SSeq, "")
			}
			if t.op == "qcat" && t.args[0] == l.v {
				return e.qcat(t.args[1:])
			}
			ok = false
			return e.raw("qnil", SSeq, "")
		})
		if ok {
			return part
		}
	}
	return nil
}

func (m *Mach) plus(l *lvar, a, b *Node) *Node {
	if l.srt == SSeq {
		return m.e.op("qcat", SSeq, a, b)
	}
	return m.e.op("add", l.srt, a, b)
}

// tripCount recognises K < n.
func (m *Mach) tripCount(c *Node, K *Term) *Node {
	e := m.e
	kset := map[*Term]bool{K: true}
	lin := func(d *Term) (*big.Int, *Term) { // d = a*K + r
		var a *big.Int
		var r []mono
		for _, x := range e.monos(d) {
			if len(x.f) == 1 && x.f[0] == K {
				a = x.c
			} else {
				r = append(r, x)
			}
		}
		if a == nil {
			return nil, nil
		}
		rt := e.fromMonos(SBig, r)
		if e.mentions(e.leaf(rt), kset) {
			return nil, nil
		}
		return a, rt
	}
	toInt := func(t *Term) *Node { return e.leaf(e.fromMonos(SI64, e.monos(t))) }
	max0 := func(n *Node) *Node {
		return e.mapLeaves(n, func(t *Term) *Node {
			if lo, _ := e.bound(t); lo != nil && lo.Sign() >= 0 {
				return e.leaf(t)
			}
			if t.isConst() {
				return e.cint(SI64, 0)
			}
			// if 0 < t then t else 0
			pos := e.op("lt", SBool, e.cint(SI64, 0), e.leaf(t))
			return e.ite(pos, e.leaf(t), e.cint(SI64, 0))
		})
	}
	// cases that do not depend on K select among counts
	var w func(c *Node) *Node
	w = func(c *Node) *Node {
		if c == e.F {
			return e.cint(SI64, 0)
		}
		if c.term != nil {
			return nil
		}
		t := c.atom
		if t.op == "le0" {
			a, r := lin(t.args[0])
			if a != nil {
				pos := c.hi == e.T && c.lo == e.F
				neg := c.hi == e.F && c.lo == e.T
				if pos && a.Sign() > 0 || neg && a.Sign() < 0 {
					// a*K + r <= 0, or not (a*K + r <= 0) = -a*K - r + 1 <= 0
					rr := r
					aa := a
					if neg {
						aa = new(big.Int).Neg(a)
						rr = e.fromMonos(SBig, append(scale(e.monos(r), big.NewInt(-1)), mono{one, nil}))
					}
					nr := e.op("neg", SI64, toInt(rr))
					if aa.Cmp(one) != 0 {
						nr = e.op("fdiv", SI64, nr, e.cbig(SI64, aa))
					}
					return max0(e.op("add", SI64, nr, e.cint(SI64, 1)))
				}
			}
			if a == nil && !e.mentions(e.atom(t), kset) {
				x, y := w(c.hi), w(c.lo)
				if x != nil && y != nil {
					return e.ite(e.atom(t), x, y)
				}
				return nil
			}
			// K differs from n
			if a != nil && a.CmpAbs(one) == 0 {
				for _, off := range []int64{0, 1, -1} {
					d := e.fromMonos(SBig, append(append([]mono(nil), e.monos(t.args[0])...), mono{big.NewInt(off), nil}))
					if e.not(e.eq0(d)) == c {
						_, r := lin(d)
						n := toInt(r)
						if a.Sign() > 0 {
							n = e.op("neg", SI64, n)
						}
						return max0(n)
					}
				}
			}
			return nil
		}
		if !e.mentions(e.atom(t), kset) {
			x, y := w(c.hi), w(c.lo)
			if x != nil && y != nil {
				return e.ite(e.atom(t), x, y)
			}
		}
		return nil
	}
	return w(c)
}

// kAs is K in another number type.
func (m *Mach) kAs(K *Term, s Sort) *Node {
	if s == SI64 {
		return m.e.leaf(K)
	}
	if s == SU256 {
		return m.e.op("zext", SU256, m.e.op("cv", SU64, m.e.leaf(K)))
	}
	return m.e.op("cv", s, m.e.leaf(K))
}

// closed finds a closed form for one recurrence.
func (m *Mach) closed(l *lvar, T, C *Node, unsolved map[*Term]bool, solved map[*Term]*Node, K *Term) *Node {
	e := m.e
	kset := map[*Term]bool{K: true}
	free := func(n *Node) bool { return !e.mentions(n, unsolved) }
	self := e.asNode(l.v)
	T = e.restrict(T, e.subst(C, solved))
	if free(T) && !e.mentions(T, map[*Term]bool{l.v: true}) && (l.srt.machine() || l.srt == SU256 || l.srt == SBig || l.srt == SF64) {
		// carried over from the iteration before
		prev := e.subst(T, map[*Term]*Node{K: e.op("sub", SI64, e.leaf(K), e.cint(SI64, 1))})
		return e.ite(e.eq0(K), l.init, prev)
	}
	switch {
	case l.srt.machine() || l.srt == SU256 || l.srt == SBig:
		d := e.op("sub", l.srt, T, self)
		if !free(d) {
			return nil
		}
		if !e.mentions(d, kset) && d.term != nil && l.srt != SBig {
			return e.op("add", l.srt, l.init, e.op("mul", l.srt, d, m.kAs(K, l.srt)))
		}
		b, lv := e.bindK(d, K)
		return e.op("add", l.srt, l.init, e.bsum(l.srt, e.leaf(K), b, lv))
	case l.srt == SSeq:
		return m.closedSeq(l, T, C, unsolved, solved, K)
	case l.srt == SState:
		if T.term != nil && T.term.op == "mput" && T.term.args[0] == l.v {
			k := T.term.args[1]
			if k.op == "mapkey" && k.args[1] == K && free(e.leaf(k)) && free(e.asNode(T.term.args[2])) {
				val := e.subst(e.asNode(T.term.args[2]), map[*Term]*Node{k: e.asNode(m.hole(k.sort))})
				if !e.mentions(val, kset) {
					return e.mcomp(l.init, e.leaf(k.args[0]), e.leaf(K), val)
				}
			}
		}
	}
	return nil
}

func (m *Mach) hole(s Sort) *Term { return m.e.mk(&Term{op: "hole", sort: s}) }

func (m *Mach) closedSeq(l *lvar, T, C *Node, unsolved map[*Term]bool, solved map[*Term]*Node, K *Term) *Node {
	e := m.e
	free := func(n *Node) bool { return !e.mentions(n, unsolved) }
	self := e.asNode(l.v)
	kn := e.leaf(K)
	// appended part, case by case
	ok := true
	part := e.mapLeaves(T, func(t *Term) *Node {
		if t == l.v {
			return e.raw("qnil", SSeq, "")
		}
		if t.op == "qcat" && t.args[0] == l.v {
			return e.qcat(t.args[1:])
		}
		ok = false
		return e.raw("qnil", SSeq, "")
	})
	if ok && free(part) {
		if part.term != nil && part.term.op == "qunit" {
			b, lv := e.bindK(e.asNode(part.term.args[0]), K)
			return e.op("qcat", SSeq, l.init, e.comp(kn, b, lv))
		}
		// one element per iteration whatever the case
		all := true
		el := e.mapLeaves(part, func(t *Term) *Node {
			if t.op == "qunit" {
				return e.asNode(t.args[0])
			}
			all = false
			return e.raw("none", SAny, "")
		})
		if all {
			b, lv := e.bindK(el, K)
			return e.op("qcat", SSeq, l.init, e.comp(kn, b, lv))
		}
		// every c-th iteration
		if c, body := m.strided(part, K); body != nil {
			n := e.op("fdiv", SI64, e.op("add", SI64, kn, e.cint(SI64, c-1)), e.cint(SI64, c))
			at := e.subst(body, map[*Term]*Node{K: e.op("mul", SI64, kn, e.cint(SI64, c))})
			b, lv := e.bindK(at, K)
			return e.op("qcat", SSeq, l.init, e.comp(n, b, lv))
		}
		// every iteration but the first ones
		for c := int64(1); c <= 2; c++ {
			if e.subst(part, map[*Term]*Node{K: e.cint(SI64, c-1)}) != e.raw("qnil", SSeq, "") {
				break
			}
			at := e.subst(part, map[*Term]*Node{K: e.op("add", SI64, kn, e.cint(SI64, c))})
			if at.term != nil && at.term.op == "qunit" {
				b, lv := e.bindK(e.asNode(at.term.args[0]), K)
				n := e.ite(e.op("lt", SBool, kn, e.cint(SI64, c)), e.cint(SI64, 0), e.op("sub", SI64, kn, e.cint(SI64, c)))
				return e.op("qcat", SSeq, l.init, e.comp(n, b, lv))
			}
		}
		b, lv := e.bindK(part, K)
		return e.op("qcat", SSeq, l.init, e.leaf(e.mk(&Term{op: "qflat", sort: SSeq, num: big.NewInt(int64(lv)), args: []*Term{K}, nodes: []*Node{b}})))
	}
	// one element replaced per iteration, in order
	idx := (*Node)(nil)
	ok = true
	val := e.mapLeaves(T, func(t *Term) *Node {
		if t.op == "upd" && t.args[0] == l.v {
			i := e.leaf(t.args[1])
			if idx == nil {
				idx = i
			} else if idx != i {
				ok = false
			}
			return e.asNode(t.args[2])
		}
		ok = false
		return e.raw("none", SAny, "")
	})
	if ok && idx != nil && free(idx) {
		off := e.op("sub", SI64, idx, kn)
		down := false
		if e.mentions(off, map[*Term]bool{K: true}) {
			// from the end towards the beginning
			if off = e.op("add", SI64, idx, kn); e.mentions(off, map[*Term]bool{K: true}) {
				return nil
			}
			down = true
		}
		// the old value at the same place is still the initial one
		cur := findTerms(val, func(t *Term) bool { return t.op == "sel" && t.args[0] == l.v && t.args[1] == idx.term })
		if len(cur) > 0 {
			sub := map[*Term]*Node{}
			for _, t := range cur {
				sub[t] = e.build("sel", t.sort, t.str, nil, l.init, idx)
			}
			val = e.subst(val, sub)
		}
		if !free(val) {
			return nil
		}
		L := e.op("qlen", SI64, l.init)
		if down {
			j := m.freshVar(SI64, kn).v
			val = e.subst(val, map[*Term]*Node{K: e.op("sub", SI64, e.op("sub", SI64, kn, e.cint(SI64, 1)), e.leaf(j))})
			b, lv := e.bindK(val, j)
			end := e.op("add", SI64, off, e.cint(SI64, 1))
			return e.op("qcat", SSeq, e.op("qsub", SSeq, l.init, e.cint(SI64, 0), e.op("sub", SI64, end, kn)), e.comp(kn, b, lv),
				e.op("qsub", SSeq, l.init, end, e.op("sub", SI64, L, end)))
		}
		b, lv := e.bindK(val, K)
		end := e.op("add", SI64, off, kn)
		return e.op("qcat", SSeq, e.op("qsub", SSeq, l.init, e.cint(SI64, 0), off), e.comp(kn, b, lv),
			e.op("qsub", SSeq, l.init, end, e.op("sub", SI64, L, end)))
	}
	_ = self
	return nil
}

// strided recognises "append x when K is a multiple of c".
func (m *Mach) strided(part *Node, K *Term) (int64, *Node) {
	e := m.e
	for _, t := range findTerms(part, func(t *Term) bool {
		return (t.op == "trem" || t.op == "divides") && t.args[0] == K && t.args[1].isConst() && t.args[1].num.Sign() > 0
	}) {
		c := t.args[1].num
		g := e.eq0(t)
		if t.op == "divides" {
			g = e.op("divides", SBool, e.leaf(t.args[0]), e.leaf(t.args[1]))
		}
		hit := e.restrict(part, g)
		miss := e.restrict(part, e.not(g))
		if miss.term != nil && miss.term.op == "qnil" && hit.term != nil && hit.term.op == "qunit" {
			if e.mentions(hit, map[*Term]bool{t: true}) {
				continue
			}
			return c.Int64(), e.asNode(hit.term.args[0])
		}
		if miss.term != nil && miss.term.op == "qnil" && hit.term == nil && c.IsInt64() && c.Int64() > 1 {
			// a multiple of c that is a multiple of something else as well
			j := m.freshVar(SI64, e.leaf(K)).v
			if e.lim == nil {
				e.lim = map[*Term][2]*big.Int{}
			}
			e.lim[j] = [2]*big.Int{zero, new(big.Int).Lsh(one, 62)}
			at := e.subst(hit, map[*Term]*Node{K: e.op("mul", SI64, e.leaf(j), e.cint(SI64, c.Int64()))})
			if d, body := m.strided(at, j); body != nil && d < 1<<20 && c.Int64() < 1<<20 {
				return c.Int64() * d, e.subst(body, map[*Term]*Node{j: e.op("fdiv", SI64, e.leaf(K), e.cint(SI64, c.Int64()))})
			}
		}
	}
	return 0, nil
}
