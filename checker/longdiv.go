package main

// Long division step by step: for every length of the divisor and the numerator
// the general algorithm is taken apart; its inner loops are operations decided on
// their own.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var innerDivision = map[string]model{
	"uint256.udivremKnuth": func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		qa, _ := m.words(st, a[0].(*SliceV))
		ua, us := m.words(st, a[1].(*SliceV))
		_, ds := m.words(st, a[2].(*SliceV))
		args := append(append([]*Node(nil), ds...), us...)
		t := types.Typ[types.Uint64]
		for j := range qa[:max(0, min(len(qa), len(us)-len(ds)))] {
			m.store(st, m.e.T, qa[j], t, m.e.build("knuthQ", SU64, fmt.Sprint(len(ds)), m.e.cint(SI64, int64(j)).term.num, args...))
		}
		for j := range ua {
			m.store(st, m.e.T, ua[j], t, m.e.build("knuthU", SU64, fmt.Sprint(len(ds)), m.e.cint(SI64, int64(j)).term.num, args...))
		}
		return &Agg{}, st
	},
	"uint256.udivremBy1": func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		qa, _ := m.words(st, a[0].(*SliceV))
		_, us := m.words(st, a[1].(*SliceV))
		args := append([]*Node{N(a[2])}, us...)
		t := types.Typ[types.Uint64]
		for j := range qa[:max(0, min(len(qa), len(us)-1))] {
			m.store(st, m.e.T, qa[j], t, m.e.build("by1Q", SU64, "", m.e.cint(SI64, int64(j)).term.num, args...))
		}
		return m.e.build("by1R", SU64, "", nil, args...), st
	},
}

func longDivCfg() *Cfg { return &Cfg{limbs: true, bare: "uint256.", extra: innerDivision} }

// wordSlice is parameter i, a slice of n words of which the highest are zero.
func wordSlice(fn string, i, n, used int) func(m *Mach, st *State) Val {
	return func(m *Mach, st *State) Val {
		p := m.prog.funcs[fn].Params[i]
		s := m.param(p.Name(), p.Type()).(*SliceV)
		var ws []*Node
		for j := 0; j < n; j++ {
			w := m.e.cint(SU64, 0)
			if j < used {
				w = m.param(fmt.Sprintf("%s[%d]", p.Name(), j), types.Typ[types.Uint64]).(*Node)
			}
			ws = append(ws, m.e.build("qunit", SSeq, "", nil, w))
		}
		st.heap[m.contKey(s.base.term)] = m.e.build("qcat", SSeq, "", nil, ws...)
		return &SliceV{s.base, m.e.cint(SI64, 0), m.e.cint(SI64, int64(n))}
	}
}

func longDivisions() []rule {
	var rs []rule
	fn := "uint256.Udivrem"
	for k := 1; k <= 4; k++ {
		for n := 0; n <= 8; n++ {
			t := tg(fn, "uint256.zzSpec_Udivrem")
			t.note = fmt.Sprintf("divisor of %d words, numerator of %d words", k, n)
			t.cfg = longDivCfg
			t.args = map[int]func(m *Mach, st *State) Val{
				0: wordSlice(fn, 0, 8, 8),
				1: wordSlice(fn, 1, 8, n),
				2: func(m *Mach, st *State) Val {
					p := m.param("d", m.prog.funcs[fn].Params[2].Type()).(*Node)
					var ws []*Node
					for j := 0; j < 4; j++ {
						w := m.e.cint(SU64, 0)
						if j < k {
							w = m.param(fmt.Sprintf("d[%d]", j), types.Typ[types.Uint64]).(*Node)
						}
						ws = append(ws, w)
					}
					m.setU(st, p, m.e.op("pack", SU256, ws...))
					return p
				},
			}
			t.assume = func(m *Mach, st *State, a []Val) *Node {
				nz := func(name string, j int) *Node {
					w := m.param(fmt.Sprintf("%s[%d]", name, j), types.Typ[types.Uint64]).(*Node)
					return m.e.not(m.e.op("eq", SBool, w, m.e.cint(SU64, 0)))
				}
				c := nz("d", k-1)
				if n > 0 {
					c = m.e.and(c, nz(m.prog.funcs[fn].Params[1].Name(), n-1))
				}
				return c
			}
			rs = append(rs, t)
		}
	}
	return rs
}
