package main

// sweep: one function against its specification for every value of one argument.

import (
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"
)

type sweep struct {
	t     *target
	n     int // values 0 to n-1 are tried one by one
	arg   func(m *Mach, st *State, k int) Val
	argOf func(t *target) func(m *Mach, st *State, k int) Val
	rest  func(m *Mach, st *State, args []Val) *Node // the condition of all other values
	chunk int                                        // values decided together
}

func (s *sweep) name() string { return s.t.fn }

func (s *sweep) run(p *Prog, deadline time.Time) []*outcome {
	o := &outcome{rule: fmt.Sprintf("equals its specification %s for each of %d values and for all others", s.t.spec, s.n), target: strings.Replace(s.t.fn, "zzDo_", "Int.", 1), status: "undecided"}
	t0 := time.Now()
	defer func() { o.wall = time.Since(t0) }()
	f, g := p.funcs[s.t.fn], p.funcs[s.t.spec]
	if f == nil || g == nil {
		o.note = "function not found, or the specification does not type-check against this tree"
		return []*outcome{o}
	}
	doubts := 0
	fns := map[string]bool{}
	chunk := s.chunk
	if chunk == 0 {
		chunk = 32
	}
	for lo := 0; lo <= s.n; lo += chunk {
		c, m, err := s.part(p.copy(), lo, min(lo+chunk, s.n+1), deadline)
		if err != "" {
			if o.status != "violated" {
				o.status, o.note = "undecided", err
			}
			return []*outcome{o}
		}
		for _, k := range followed(m) {
			fns[k] = true
		}
		for _, x := range c {
			o.nobs += x.nobs
			if x.doubts > 0 {
				doubts += x.doubts
			}
			if len(x.diffs) > 0 && o.status != "violated" {
				if why := untrusted(m, x); why != "" {
					o.note = why
					return []*outcome{o}
				}
				o.status, o.diffs = "violated", x.diffs
			}
		}
	}
	for k := range fns {
		o.fns = append(o.fns, k)
	}
	if o.status != "violated" {
		o.status, o.note = "ok", ""
		if doubts > 0 {
			o.status, o.note = "undecided", "the two sides look different, but no instance shows a difference"
		}
	}
	return []*outcome{o}
}

func (s *sweep) part(p *Prog, lo, hi int, deadline time.Time) (cs []*cmp, m *Mach, msg string) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Undecided); ok {
				msg = u.msg
				return
			}
			msg = fmt.Sprintf("internal error: %v", r)
			if os.Getenv("VDEBUG") == "panic" {
				debug.PrintStack()
			}
		}
	}()
	e := NewEng()
	e.deadline = deadline
	m = newMach(e, p, s.t.cfg())
	m.bootHeap()
	for k := lo; k < hi; k++ {
		t := *s.t
		if k < s.n {
			t.args = map[int]func(m *Mach, st *State) Val{}
			for i := range s.t.args {
				arg := s.arg
				if s.argOf != nil {
					arg = s.argOf(s.t)
				}
				t.args[i] = func(m *Mach, st *State) Val { return arg(m, st, k) }
			}
		} else {
			if s.rest == nil {
				continue
			}
			t.args, t.assume = nil, s.rest
		}
		c := m.compareFns(p.funcs[s.t.fn], p.funcs[s.t.spec], &t)
		for i := range c.diffs {
			if k < s.n {
				c.diffs[i].where = fmt.Sprintf("%s (argument %d)", c.diffs[i].where, k)
			} else {
				c.diffs[i].where = strings.TrimSpace(c.diffs[i].where + " (all other arguments)")
			}
		}
		cs = append(cs, c)
	}
	return
}

// shifts: every distance up to 256 bits, and beyond.
func shifts(fns ...string) []rule {
	var rs []rule
	for _, f := range fns {
		t := tg("uint256.Int."+f, "uint256.zzSpec_"+f)
		t.cfg, t.args = wordCfg, map[int]func(m *Mach, st *State) Val{2: nil}
		rs = append(rs, &sweep{t: t, n: 258, arg: func(m *Mach, st *State, k int) Val { return m.e.cint(SU64, int64(k)) },
			rest: func(m *Mach, st *State, a []Val) *Node {
				return m.e.op("lt", SBool, m.e.cint(SU64, 257), a[2].(*Node))
			}})
	}
	return rs
}

// positions: every byte position in a 256-bit argument, and all larger numbers.
func positions(i int, fns ...string) []rule {
	var rs []rule
	for _, f := range fns {
		t := tg("uint256.Int."+f, "uint256.zzSpec_"+f)
		t.cfg, t.args = wordCfg, map[int]func(m *Mach, st *State) Val{i: nil}
		rs = append(rs, &sweep{t: t, n: 33, argOf: func(t *target) func(m *Mach, st *State, k int) Val {
			return func(m *Mach, st *State, k int) Val {
				q := m.prog.funcs[t.fn].Params[i]
				name := "position"
				if j, ok := t.alias[i]; ok {
					name = m.prog.funcs[t.fn].Params[j].Name()
				}
				p := m.param(name, q.Type()).(*Node)
				m.setU(st, p, m.e.cint(SU256, int64(k)))
				return p
			}
		},
			rest: func(m *Mach, st *State, a []Val) *Node {
				x := m.u(st, a[i])
				small := m.e.and(m.e.highZero(x), m.e.op("lt", SBool, m.e.word(x, 0), m.e.cint(SU64, 32)))
				return m.e.not(small)
			}})
	}
	return rs
}
