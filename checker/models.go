package main

// Meaning of the operations a function is built from: the 256-bit integer
// methods (decided on their own by C29 to C31), the standard library, builtins,
// and the vocabulary a specification and the code share.

import (
	"fmt"
	"go/types"
	"math/big"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type model func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State)

// Vocab: a repository function taken as one operation. mut lists the pointer
// parameters (receiver first) whose objects it changes; toks the state tokens.
type Vocab struct {
	mut   []int
	reads []string // token groups it reads besides those of its arguments
	world bool     // reads and changes the world token
	pure  bool     // reads nothing that changes
	same  int      // result 0 is parameter same-1
	noIn  []int    // parameters that are only written or never change
	lent  bool     // the numbers it returns belong to the object asked
	keep  []string // token groups of the changed objects that it leaves alone
}

type iterInfo struct {
	m0 *Node
	mp *Node
	ty types.Type
}

var models = map[string]model{}

func (m *Mach) u(st *State, v Val) *Node { return m.loadN(st, v.(*Node), m.u256).(*Node) }
func (m *Mach) setU(st *State, p Val, n *Node) {
	m.storeN(st, p.(*Node), m.u256, n)
}
func (m *Mach) newU(st *State, n *Node) *Node {
	a := m.newAlloc(m.u256, "u")
	st.heap[a] = n
	return m.e.leaf(a)
}

func N(v Val) *Node { return v.(*Node) }

// words lists the elements of a short slice of machine words and their addresses.
func (m *Mach) words(st *State, s *SliceV) (as []*Term, vs []*Node) {
	ln, ok := s.ln.constInt()
	off, ok2 := s.off.constInt()
	if !ok || !ok2 || s.base.term == nil || ln.Int64() > 32 {
		undecided("machine words of a slice of unknown length")
	}
	t := types.Typ[types.Uint64]
	for i := int64(0); i < ln.Int64(); i++ {
		ad := m.idxT(s.base.term, m.e.cint(SI64, off.Int64()+i).term, t)
		as = append(as, ad)
		vs = append(vs, m.load(st, ad, t).(*Node))
	}
	return
}

func (e *Eng) isneg(x *Node) *Node { return e.op("isneg", SBool, x) }
func (e *Eng) slt256(x, y *Node) *Node {
	a, b := e.isneg(x), e.isneg(y)
	return e.ite(e.xor(a, b), a, e.op("lt", SBool, x, y))
}
func (e *Eng) word(x *Node, i int64) *Node { return e.build("word", SU64, "", big.NewInt(i), x) }
func (e *Eng) zext(x *Node) *Node          { return e.op("zext", SU256, x) }
func (e *Eng) zero256() *Node              { return e.cint(SU256, 0) }
func (e *Eng) u64of(x *Node) *Node         { return e.word(x, 0) }

// fitsWords: the words above the lowest n are zero.
func (e *Eng) highZero(x *Node) *Node {
	r := e.T
	for i := int64(1); i < 4; i++ {
		r = e.and(r, e.op("eq", SBool, e.word(x, i), e.cint(SU64, 0)))
	}
	return r
}

func init() {
	ui := func(name string, f model) { models["uint256.Int."+name] = f }
	bin := func(name, op string) {
		ui(name, func(m *Mach, st *State, a []Val, _ *ssa.Function) (Val, *State) {
			m.setU(st, a[0], m.e.op(op, SU256, m.u(st, a[1]), m.u(st, a[2])))
			return a[0], st
		})
	}
	bin("Add", "add")
	bin("Sub", "sub")
	bin("Mul", "mul")
	bin("Div", "udiv")
	bin("Mod", "umod")
	bin("SDiv", "sdiv")
	bin("SMod", "smod")
	bin("And", "and")
	bin("Or", "or")
	bin("Xor", "xor")
	bin("Exp", "uexp")
	bin("ExtendSign", "sext")
	un := func(name string, f func(e *Eng, x *Node) *Node) {
		ui(name, func(m *Mach, st *State, a []Val, _ *ssa.Function) (Val, *State) {
			m.setU(st, a[0], f(m.e, m.u(st, a[1])))
			return a[0], st
		})
	}
	un("Set", func(e *Eng, x *Node) *Node { return x })
	un("Not", func(e *Eng, x *Node) *Node { return e.op("not", SU256, x) })
	un("Neg", func(e *Eng, x *Node) *Node { return e.op("neg", SU256, x) })
	un("Abs", func(e *Eng, x *Node) *Node { return e.ite(e.isneg(x), e.op("neg", SU256, x), x) })
	un("Sqrt", func(e *Eng, x *Node) *Node { return e.op("usqrt", SU256, x) })
	ui("squared", func(m *Mach, st *State, a []Val, _ *ssa.Function) (Val, *State) {
		x := m.u(st, a[0])
		m.setU(st, a[0], m.e.op("mul", SU256, x, x))
		return &Agg{}, st
	})
	ter := func(name, op string) {
		ui(name, func(m *Mach, st *State, a []Val, _ *ssa.Function) (Val, *State) {
			m.setU(st, a[0], m.e.op(op, SU256, m.u(st, a[1]), m.u(st, a[2]), m.u(st, a[3])))
			return a[0], st
		})
	}
	ter("AddMod", "addmod")
	// a product of eight words and its remainder
	product := func(m *Mach, st *State, x, y, d *Node) *Node {
		e := m.e
		if !e.divCases {
			return e.op("mulmod", SU256, x, y, d)
		}
		lo, hi := e.op("mul", SU256, x, y), e.op("umulh256", SU256, x, y)
		args := []*Node{d}
		for _, p := range []*Node{lo, hi} {
			for i := int64(0); i < 4; i++ {
				args = append(args, e.word(p, i))
			}
		}
		return e.ite(e.op("eq", SBool, d, e.zero256()), e.zero256(), e.op("udrem", SU256, args...))
	}
	ui("MulMod", func(m *Mach, st *State, a []Val, _ *ssa.Function) (Val, *State) {
		m.setU(st, a[0], product(m, st, m.u(st, a[1]), m.u(st, a[2]), m.u(st, a[3])))
		return a[0], st
	})
	ui("MulModWithReciprocal", func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		x, y, d := m.u(st, a[1]), m.u(st, a[2]), m.u(st, a[3])
		r := product(m, st, x, y, d)
		if g, ok := m.load(st, N(a[4]).term, fn.Params[4].Type().(*types.Pointer).Elem()).(*Agg); ok && m.e.divCases {
			// somebody else's reciprocal gives some other number
			own, mu := m.e.T, []*Node{x, y, d}
			for i, w := range g.f {
				own = m.e.and(own, m.e.op("eq", SBool, w.(*Node), m.e.build("recip", SU64, "", big.NewInt(int64(i)), d)))
				mu = append(mu, w.(*Node))
			}
			small := m.e.op("eq", SBool, m.e.word(d, 3), m.e.cint(SU64, 0))
			r = m.e.ite(m.e.or(own, small), r, m.e.op("mulmodby", SU256, mu...))
		}
		m.setU(st, a[0], r)
		return a[0], st
	})
	sh := func(name, op string) {
		ui(name, func(m *Mach, st *State, a []Val, _ *ssa.Function) (Val, *State) {
			m.setU(st, a[0], m.e.op(op, SU256, m.u(st, a[1]), N(a[2])))
			return a[0], st
		})
	}
	sh("Lsh", "shl")
	sh("Rsh", "shr")
	sh("SRsh", "sar")
	u64 := func(name, op string) {
		ui(name, func(m *Mach, st *State, a []Val, _ *ssa.Function) (Val, *State) {
			m.setU(st, a[0], m.e.op(op, SU256, m.u(st, a[1]), m.e.zext(N(a[2]))))
			return a[0], st
		})
	}
	u64("AddUint64", "add")
	u64("SubUint64", "sub")
	con := func(name string, v int64) {
		ui(name, func(m *Mach, st *State, a []Val, _ *ssa.Function) (Val, *State) {
			m.setU(st, a[0], m.e.cint(SU256, v))
			return a[0], st
		})
	}
	con("Clear", 0)
	con("SetOne", 1)
	con("SetAllOne", -1)
	ui("SetUint64", func(m *Mach, st *State, a []Val, _ *ssa.Function) (Val, *State) {
		m.setU(st, a[0], m.e.zext(N(a[1])))
		return a[0], st
	})
	ui("AddOverflow", func(m *Mach, st *State, a []Val, _ *ssa.Function) (Val, *State) {
		x, y := m.u(st, a[1]), m.u(st, a[2])
		s := m.e.op("add", SU256, x, y)
		m.setU(st, a[0], s)
		return &Agg{[]Val{a[0], m.e.op("uaddovf", SBool, x, y)}}, st
	})
	ui("SubOverflow", func(m *Mach, st *State, a []Val, _ *ssa.Function) (Val, *State) {
		x, y := m.u(st, a[1]), m.u(st, a[2])
		m.setU(st, a[0], m.e.op("sub", SU256, x, y))
		return &Agg{[]Val{a[0], m.e.op("lt", SBool, x, y)}}, st
	})
	ui("MulOverflow", func(m *Mach, st *State, a []Val, _ *ssa.Function) (Val, *State) {
		x, y := m.u(st, a[1]), m.u(st, a[2])
		m.setU(st, a[0], m.e.op("mul", SU256, x, y))
		return &Agg{[]Val{a[0], m.e.not(m.e.op("eq", SBool, m.e.op("umulh256", SU256, x, y), m.e.zero256()))}}, st
	})
	pred := func(name string, f func(m *Mach, x, y *Node) *Node) {
		ui(name, func(m *Mach, st *State, a []Val, _ *ssa.Function) (Val, *State) {
			return f(m, m.u(st, a[0]), m.u(st, a[1])), st
		})
	}
	pred("Eq", func(m *Mach, x, y *Node) *Node { return m.e.op("eq", SBool, x, y) })
	pred("Lt", func(m *Mach, x, y *Node) *Node { return m.e.op("lt", SBool, x, y) })
	pred("Gt", func(m *Mach, x, y *Node) *Node { return m.e.op("lt", SBool, y, x) })
	pred("Slt", func(m *Mach, x, y *Node) *Node { return m.e.slt256(x, y) })
	pred("Sgt", func(m *Mach, x, y *Node) *Node { return m.e.slt256(y, x) })
	pred("Cmp", func(m *Mach, x, y *Node) *Node {
		e := m.e
		return e.ite(e.op("eq", SBool, x, y), e.cint(SI64, 0), e.ite(e.op("lt", SBool, x, y), e.cint(SI64, -1), e.cint(SI64, 1)))
	})
	pu := func(name string, f func(e *Eng, x *Node) Val) {
		ui(name, func(m *Mach, st *State, a []Val, _ *ssa.Function) (Val, *State) {
			return f(m.e, m.u(st, a[0])), st
		})
	}
	pu("IsZero", func(e *Eng, x *Node) Val { return e.op("eq", SBool, x, e.zero256()) })
	pu("Sign", func(e *Eng, x *Node) Val {
		return e.ite(e.op("eq", SBool, x, e.zero256()), e.cint(SI64, 0), e.ite(e.isneg(x), e.cint(SI64, -1), e.cint(SI64, 1)))
	})
	pu("Uint64", func(e *Eng, x *Node) Val { return e.u64of(x) })
	pu("Uint64WithOverflow", func(e *Eng, x *Node) Val { return &Agg{[]Val{e.u64of(x), e.not(e.highZero(x))}} })
	pu("IsUint64", func(e *Eng, x *Node) Val { return e.highZero(x) })
	pu("BitLen", func(e *Eng, x *Node) Val { return e.op("ubitlen", SI64, x) })
	pu("ByteLen", func(e *Eng, x *Node) Val { return e.op("ubytelen", SI64, x) })
	pu("String", func(e *Eng, x *Node) Val { return e.op("uhex", SStr, x) })
	pu("Hex", func(e *Eng, x *Node) Val { return e.op("uhex", SStr, x) })
	pu("Bytes32", func(e *Eng, x *Node) Val { return e.op("ubytes32", SSeq, x) })
	pu("Bytes20", func(e *Eng, x *Node) Val { return e.op("ubytes20", SSeq, x) })
	ui("LtUint64", func(m *Mach, st *State, a []Val, _ *ssa.Function) (Val, *State) {
		return m.e.op("lt", SBool, m.u(st, a[0]), m.e.zext(N(a[1]))), st
	})
	ui("GtUint64", func(m *Mach, st *State, a []Val, _ *ssa.Function) (Val, *State) {
		return m.e.op("lt", SBool, m.e.zext(N(a[1])), m.u(st, a[0])), st
	})
	ui("Clone", func(m *Mach, st *State, a []Val, _ *ssa.Function) (Val, *State) {
		return m.newU(st, m.u(st, a[0])), st
	})
	ui("Byte", func(m *Mach, st *State, a []Val, _ *ssa.Function) (Val, *State) {
		m.setU(st, a[0], m.e.op("ubyte", SU256, m.u(st, a[0]), m.u(st, a[1])))
		return a[0], st
	})
	models["uint256.NewInt"] = func(m *Mach, st *State, a []Val, _ *ssa.Function) (Val, *State) {
		return m.newU(st, m.e.zext(N(a[0]))), st
	}
	bytesOf := func(name string) {
		ui(name, func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
			m.setU(st, a[0], m.e.build("frombytes", SU256, name, nil, m.sliceContent(st, a[1].(*SliceV))))
			return a[0], st
		})
	}
	bytesOf("SetBytes")
	bigT := func(m *Mach, fn *ssa.Function, i int) types.Type {
		return fn.Signature.Results().At(i).Type().Underlying().(*types.Pointer).Elem()
	}
	_ = bigT
	ui("ToBig", func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		return m.newBig(st, fn.Signature.Results().At(0).Type(), m.e.op("u2z", SBig, m.u(st, a[0]))), st
	})
	ui("SToBig", func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		return m.newBig(st, fn.Signature.Results().At(0).Type(), m.e.op("s2z", SBig, m.u(st, a[0]))), st
	})
	models["uint256.FromBig"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		x := m.loadN(st, N(a[0]), fn.Params[0].Type().Underlying().(*types.Pointer).Elem()).(*Node)
		isnil := m.e.op("eq", SBool, N(a[0]), m.e.nilRef())
		p := m.newU(st, m.e.op("z2u", SU256, x))
		return &Agg{[]Val{m.e.ite(isnil, m.e.nilRef(), p), m.e.ite(isnil, m.e.F, m.e.op("zovf", SBool, x))}}, st
	}
	ui("SetFromBig", func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		x := m.loadN(st, N(a[1]), fn.Params[1].Type().Underlying().(*types.Pointer).Elem()).(*Node)
		m.setU(st, a[0], m.e.op("z2u", SU256, x))
		return m.e.op("zovf", SBool, x), st
	})
	models["uint256.FromHex"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		bad := m.e.op("hexbad", SBool, N(a[0]))
		p := m.newU(st, m.e.op("hex2u", SU256, N(a[0])))
		err := m.e.op("hexerr", SRef, N(a[0]))
		return &Agg{[]Val{m.e.ite(bad, m.e.nilRef(), p), m.e.ite(bad, err, m.e.nilRef())}}, st
	}
	models["uint256.Umul"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		x, y := m.u(st, a[0]), m.u(st, a[1])
		lo, hi := m.e.op("mul", SU256, x, y), m.e.op("umulh256", SU256, x, y)
		g := &Agg{}
		for i := int64(0); i < 4; i++ {
			g.f = append(g.f, m.e.word(lo, i))
		}
		for i := int64(0); i < 4; i++ {
			g.f = append(g.f, m.e.word(hi, i))
		}
		return g, st
	}
	models["uint256.Udivrem"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		q, u := a[0].(*SliceV), a[1].(*SliceV)
		_, us := m.words(st, u)
		qa, qs := m.words(st, q)
		d := m.u(st, a[2])
		// a zero divisor is an index out of range
		st.reach = m.e.and(st.reach, m.e.not(m.e.op("eq", SBool, d, m.e.zero256())))
		args := append([]*Node{d}, us...)
		for j, ad := range qa {
			m.store(st, m.e.T, ad, types.Typ[types.Uint64], m.e.build("udquo", SU64, "", big.NewInt(int64(j)), append([]*Node{qs[j]}, args...)...))
		}
		return m.e.op("udrem", SU256, args...), st
	}
	models["uint256.Reciprocal"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		g := &Agg{}
		for i := int64(0); i < 5; i++ {
			g.f = append(g.f, m.e.build("recip", SU64, "", big.NewInt(i), m.u(st, a[0])))
		}
		return g, st
	}
	// with the divisor's own reciprocal, the remainder
	models["uint256.reduce4"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		d := m.u(st, a[1])
		args := []*Node{d}
		for _, w := range a[0].(*Agg).f {
			args = append(args, w.(*Node))
		}
		own := m.e.T
		mu := append([]*Node(nil), args...)
		for i, w := range a[2].(*Agg).f {
			own = m.e.and(own, m.e.op("eq", SBool, w.(*Node), m.e.build("recip", SU64, "", big.NewInt(int64(i)), d)))
			mu = append(mu, w.(*Node))
		}
		return m.e.ite(own, m.e.op("udrem", SU256, args...), m.e.op("reduce4", SU256, mu...)), st
	}
	md := func(name, op string) {
		models["fullmath."+name] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
			return m.newU(st, m.e.op(op, SU256, m.u(st, a[0]), m.u(st, a[1]), m.u(st, a[2]))), st
		}
	}
	md("MulDiv", "muldiv")
	md("MulDivRoundingUp", "muldivup")
	md("ZZMulDiv", "muldiv")
	md("ZZMulDivUp", "muldivup")

	// math/bits
	models["math/bits.Add64"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		e := m.e
		s := e.op("add", SU64, e.op("add", SU64, N(a[0]), N(a[1])), N(a[2]))
		return &Agg{[]Val{s, e.op("carry", SU64, N(a[0]), N(a[1]), N(a[2]))}}, st
	}
	models["math/bits.Sub64"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		e := m.e
		s := e.op("sub", SU64, e.op("sub", SU64, N(a[0]), N(a[1])), N(a[2]))
		return &Agg{[]Val{s, e.op("borrow", SU64, N(a[0]), N(a[1]), N(a[2]))}}, st
	}
	models["math/bits.Mul64"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		e := m.e
		return &Agg{[]Val{e.op("umulh", SU64, N(a[0]), N(a[1])), e.op("mul", SU64, N(a[0]), N(a[1]))}}, st
	}
	models["math/bits.Div64"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		e := m.e
		return &Agg{[]Val{e.op("div64q", SU64, N(a[0]), N(a[1]), N(a[2])), e.op("div64r", SU64, N(a[0]), N(a[1]), N(a[2]))}}, st
	}
	f1 := func(name string, f func(m *Mach, x *Node) Val) {
		models[name] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) { return f(m, N(a[0])), st }
	}
	f1("math/bits.Len64", func(m *Mach, x *Node) Val { return m.e.op("len64", SI64, x) })
	f1("math/bits.Len", func(m *Mach, x *Node) Val { return m.e.op("len64", SI64, x) })
	f1("math/bits.LeadingZeros64", func(m *Mach, x *Node) Val {
		return m.e.op("sub", SI64, m.e.cint(SI64, 64), m.e.op("len64", SI64, x))
	})
	f1("math/bits.TrailingZeros64", func(m *Mach, x *Node) Val { return m.e.op("tz64", SI64, x) })

	// floats
	models["math.Max"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		return m.e.op("fmax", SF64, N(a[0]), N(a[1])), st
	}
	models["math.Min"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		return m.e.op("fmin", SF64, N(a[0]), N(a[1])), st
	}
	for _, n := range []string{"Round", "Floor", "Ceil", "Trunc"} {
		op := "f" + strings.ToLower(n)
		f1("math."+n, func(m *Mach, x *Node) Val { return m.e.op(op, SF64, x) })
	}
	f1("math.Sqrt", func(m *Mach, x *Node) Val { return m.e.op("fsqrt", SF64, x) })
	f1("strconv.Itoa", func(m *Mach, x *Node) Val { return m.e.op("itoa", SStr, x) })
	models["strconv.FormatInt"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		if k, ok := N(a[1]).constInt(); ok && k.Int64() == 10 {
			return m.e.op("itoa", SStr, N(a[0])), st
		}
		return m.external(shortName(fn), fn.Signature, a, st)
	}

	models["fmt.Sprintf"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		if s, ok := a[1].(*SliceV); ok {
			if r := m.fmtStr(st, N(a[0]), s); r != nil {
				return r, st
			}
		}
		return m.external(shortName(fn), fn.Signature, a, st)
	}

	// printing has no effect anything depends on
	for _, n := range []string{"Println", "Printf", "Print"} {
		models["fmt."+n] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
			return m.junkRes(fn.Signature), st
		}
	}
	for _, n := range []string{"Println", "Printf", "Print"} {
		models["log."+n] = models["fmt."+n]
	}
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln", "Panic", "Panicf", "Panicln"} {
		models["log."+n] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
			st.reach = m.e.F
			return m.junkRes(fn.Signature), st
		}
	}
	models["os.Exit"] = models["log.Fatal"]
	models["sort.Float64s"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		s := a[0].(*SliceV)
		c := m.sliceContent(st, s)
		m.setContent(st, s, m.e.op("qsorted", SSeq, c))
		return &Agg{}, st
	}

	// math/big
	bg := func(name string, f func(e *Eng, z *Node, a []*Node) *Node) {
		models["math/big.Int."+name] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
			var xs []*Node
			for i, v := range a[1:] {
				pt := fn.Signature.Params().At(i).Type()
				if p, ok := pt.Underlying().(*types.Pointer); ok {
					xs = append(xs, m.loadN(st, N(v), p.Elem()).(*Node))
				} else {
					xs = append(xs, N(v))
				}
			}
			rt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
			r := f(m.e, nil, xs)
			m.storeN(st, N(a[0]), rt, r)
			return a[0], st
		}
	}
	z2 := func(name, op string) {
		bg(name, func(e *Eng, z *Node, a []*Node) *Node { return e.op(op, SBig, a...) })
	}
	z2("Add", "add")
	z2("Sub", "sub")
	z2("Mul", "mul")
	z2("Div", "zdiv")
	z2("Mod", "zmod")
	z2("Quo", "zquo")
	z2("Rem", "zrem")
	models["math/big.Int.Sqrt"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		rt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		x := m.loadN(st, N(a[1]), rt).(*Node)
		neg := m.e.op("lt", SBool, x, m.e.cint(SBig, 0))
		st = st.clone()
		st.reach = m.e.and(st.reach, m.e.not(neg))
		m.storeN(st, N(a[0]), rt, m.e.op("zsqrt", SBig, x))
		return a[0], st
	}
	z2("Abs", "zabs")
	z2("Neg", "neg")
	bg("Set", func(e *Eng, z *Node, a []*Node) *Node { return a[0] })
	bg("SetInt64", func(e *Eng, z *Node, a []*Node) *Node { return e.op("toz", SBig, a[0]) })
	bg("SetUint64", func(e *Eng, z *Node, a []*Node) *Node { return e.op("toz", SBig, a[0]) })
	bg("Lsh", func(e *Eng, z *Node, a []*Node) *Node { return e.op("zshl", SBig, a...) })
	bg("Rsh", func(e *Eng, z *Node, a []*Node) *Node { return e.op("zshr", SBig, a...) })
	bg("Exp", func(e *Eng, z *Node, a []*Node) *Node { return e.op("zexp", SBig, a...) })
	models["math/big.NewInt"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		return m.newBig(st, fn.Signature.Results().At(0).Type(), m.e.op("toz", SBig, N(a[0]))), st
	}
	zp := func(name string, f func(e *Eng, x *Node, a []*Node) *Node) {
		models["math/big.Int."+name] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
			rt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
			x := m.loadN(st, N(a[0]), rt).(*Node)
			var xs []*Node
			for i, v := range a[1:] {
				pt := fn.Signature.Params().At(i).Type()
				if p, ok := pt.Underlying().(*types.Pointer); ok {
					xs = append(xs, m.loadN(st, N(v), p.Elem()).(*Node))
				} else {
					xs = append(xs, N(v))
				}
			}
			return f(m.e, x, xs), st
		}
	}
	zp("Sign", func(e *Eng, x *Node, a []*Node) *Node {
		z := e.cint(SBig, 0)
		return e.ite(e.op("eq", SBool, x, z), e.cint(SI64, 0), e.ite(e.op("lt", SBool, x, z), e.cint(SI64, -1), e.cint(SI64, 1)))
	})
	zp("Cmp", func(e *Eng, x *Node, a []*Node) *Node {
		return e.ite(e.op("eq", SBool, x, a[0]), e.cint(SI64, 0), e.ite(e.op("lt", SBool, x, a[0]), e.cint(SI64, -1), e.cint(SI64, 1)))
	})
	zp("String", func(e *Eng, x *Node, a []*Node) *Node { return e.op("zdec", SStr, x) })
	zp("Int64", func(e *Eng, x *Node, a []*Node) *Node { return e.op("z2i", SI64, x) })
	zp("Uint64", func(e *Eng, x *Node, a []*Node) *Node { return e.op("z2w", SU64, x) })
	zp("BitLen", func(e *Eng, x *Node, a []*Node) *Node { return e.op("zbitlen", SI64, x) })
	models["math/big.Int.Bits"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		rt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		x := m.loadN(st, N(a[0]), rt).(*Node)
		c := m.e.op("zlimbs", SSeq, x)
		return m.newSlice(st, fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem(), c, m.e.op("qlen", SI64, c)), st
	}
	models["math/big.Int.SetBits"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		rt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		m.storeN(st, N(a[0]), rt, m.e.op("zfrom", SBig, m.sliceContent(st, a[1].(*SliceV))))
		return a[0], st
	}
	models["math/big.Int.SetString"] = func(m *Mach, st *State, a []Val, fn *ssa.Function) (Val, *State) {
		rt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		e := m.e
		ok := e.op("zparseok", SBool, N(a[1]), N(a[2]))
		m.storeN(st, N(a[0]), rt, e.op("zparse", SBig, N(a[1]), N(a[2])))
		return &Agg{[]Val{e.ite(ok, N(a[0]), e.nilRef()), ok}}, st
	}
}

func (m *Mach) newBig(st *State, ptr types.Type, n *Node) *Node {
	a := m.newAlloc(ptr.Underlying().(*types.Pointer).Elem(), "z")
	st.heap[a] = n
	return m.e.leaf(a)
}

// setContent replaces the elements a slice shows.
func (m *Mach) setContent(st *State, s *SliceV, n *Node) {
	ts, cs := m.leafConds(m.e.restrict(s.base, st.reach))
	for i, t := range ts {
		if t.op == "nil" {
			continue
		}
		old := m.content(st, t)
		k := m.contKey(t)
		ln := m.e.op("qlen", SI64, old)
		end := m.e.op("add", SI64, s.off, s.ln)
		nv := m.e.op("qcat", SSeq, m.e.op("qsub", SSeq, old, m.e.cint(SI64, 0), s.off), n,
			m.e.op("qsub", SSeq, old, end, m.e.op("sub", SI64, ln, end)))
		if kd := m.kind(t); kd != kSeq && t.op != "box" {
			n := int64(4)
			if kd == kSmall {
				n, _ = m.arrayLen(t)
			}
			el := m.elemType(t)
			var vs []Val
			for j := int64(0); j < n; j++ {
				vs = append(vs, m.unpack(m.e.build("sel", m.packSort(el), typeName(el), nil, nv, m.e.cint(SI64, j)), el))
			}
			for j := int64(0); j < n; j++ {
				m.store(st, cs[i], m.idxT(t, m.e.cint(SI64, j).term, el), el, vs[j])
			}
			continue
		}
		st.heap[k] = m.e.ite(cs[i], nv, old)
	}
}

// ---- calls that stay calls

// deep is everything an operation may see through v.
func (m *Mach) deep(st *State, v Val, ty types.Type, d int) *Node {
	e := m.e
	if d > 6 {
		undecided("argument nested too deeply: %s", ty)
	}
	switch u := ty.Underlying().(type) {
	case *types.Pointer:
		n := v.(*Node)
		n = e.restrict(n, st.reach)
		el := u.Elem()
		if g, ok := m.cfg.tokTypes[typeNameOf(el)]; ok {
			return e.mapLeaves(n, func(t *Term) *Node {
				if t.op == "nil" {
					return e.leaf(t)
				}
				m.setType(t, el)
				if g == "world" {
					return e.build("obj", SAny, "", nil, e.leaf(t), m.node(st, m.worldTok()))
				}
				args := []*Node{e.leaf(m.canonRef(t))}
				for _, gr := range m.tokGroups(el) {
					args = append(args, m.node(st, m.regionTok(t, gr)))
				}
				return e.build("obj", SAny, "", nil, args...)
			})
		}
		r := m.overLeaves(n, func(t *Term) Val {
			if t.op == "nil" {
				return e.leaf(t)
			}
			m.setType(t, el)
			if t.op == "gobj" {
				if _, ok := leafSort(el); !ok {
					return e.leaf(t)
				}
			}
			c := m.load(st, t, el)
			return m.deep(st, c, el, d+1)
		})
		return m.anyfy(r.(*Node))
	case *types.Slice:
		s := v.(*SliceV)
		c := m.sliceContent(st, s)
		if _, ok := leafSort(u.Elem()); ok && !hasRefs(u.Elem()) {
			return c
		}
		J := e.mk(&Term{op: "var", sort: SI64, str: "J", num: big.NewInt(int64(d))})
		el := m.unpack(e.build("sel", m.packSort(u.Elem()), typeName(u.Elem()), nil, c, e.leaf(J)), u.Elem())
		b := m.deep(st, el, u.Elem(), d+1)
		bn, lv := e.bindK(b, J)
		return e.comp(s.ln, bn, lv)
	case *types.Map:
		return m.overLeaves(v.(*Node), func(t *Term) Val {
			if t.op == "nil" {
				return e.leaf(t)
			}
			return m.node(st, m.mapKey(t))
		}).(*Node)
	case *types.Struct, *types.Array:
		if n, ok := v.(*Node); ok {
			return n
		}
		g := v.(*Agg)
		ts, _ := components(ty)
		var as []*Node
		for i, f := range g.f {
			as = append(as, m.anyfy(m.deep(st, f, ts[i], d+1)))
		}
		return e.build("rec", SRec, typeName(ty), nil, as...)
	case *types.Interface:
		n := v.(*Node)
		return e.mapLeaves(n, func(t *Term) *Node {
			if t.op != "iface" {
				return e.leaf(t)
			}
			dt := m.prog.ifaceTypes[t.str]
			return e.build("iface", SRef, t.str, nil, m.anyfy(m.deep(st, m.unpack(e.asNode(t.args[0]), dt), dt, d+1)))
		})
	}
	return m.anyfy(v.(*Node))
}

// anyfy makes booleans usable as arguments of terms.
func (m *Mach) anyfy(n *Node) *Node {
	return n
}

func (m *Mach) canonRef(t *Term) *Term { return t }

func hasRefs(t types.Type) bool {
	s, ok := leafSort(t)
	return !ok || s == SRef
}

// callTerm is the name of a call's outcome.
func (m *Mach) callTerm(name string, srt Sort, args []*Node) *Node {
	return m.e.build("call", srt, name, nil, args...)
}

// havoc makes an unknown value of type ty that is a function of base.
func (m *Mach) havoc(st *State, ty types.Type, base *Node, path string) Val {
	e := m.e
	if s, ok := leafSort(ty); ok {
		if p, ok := ty.Underlying().(*types.Pointer); ok {
			el := p.Elem()
			if _, lf := leafSort(el); lf && !isOpaqueStd(el) || boxable(el) {
				a := m.newAlloc(el, "c")
				m.store(st, e.T, a, el, m.havoc(st, el, base, path+"*"))
				return e.leaf(a)
			}
			n := e.build("outref", SRef, path, nil, base)
			m.noteRefs(n, ty)
			return n
		}
		if s == SBool {
			return e.build("outb", SBool, path, nil, base)
		}
		return e.build("out", s, path, nil, base)
	}
	if isSlice(ty) {
		el := ty.Underlying().(*types.Slice).Elem()
		c := e.build("out", SSeq, path, nil, base)
		return m.newSlice(st, el, c, e.op("qlen", SI64, c))
	}
	if isBigArray(ty) {
		return e.build("out", SSeq, path, nil, base)
	}
	ts, _ := components(ty)
	g := &Agg{}
	for i, t := range ts {
		g.f = append(g.f, m.havoc(st, t, base, fmt.Sprintf("%s.%d", path, i)))
	}
	return g
}

func (m *Mach) resVal(st *State, sig *types.Signature, base *Node) Val {
	switch sig.Results().Len() {
	case 0:
		return &Agg{}
	case 1:
		return m.havoc(st, sig.Results().At(0).Type(), base, "0")
	}
	g := &Agg{}
	for i := 0; i < sig.Results().Len(); i++ {
		g.f = append(g.f, m.havoc(st, sig.Results().At(i).Type(), base, fmt.Sprint(i)))
	}
	return g
}

func (m *Mach) allParams(sig *types.Signature) []types.Type {
	var ts []types.Type
	if r := sig.Recv(); r != nil {
		ts = append(ts, r.Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

func (m *Mach) vocabCall(vc *Vocab, name string, sig *types.Signature, args []Val, st *State) (Val, *State) {
	e := m.e
	ts := m.allParams(sig)
	var ds []*Node
	for i, a := range args {
		skip := false
		for _, k := range vc.noIn {
			skip = skip || k == i
		}
		if skip {
			continue
		}
		if vc.pure {
			if n, ok := a.(*Node); ok {
				ds = append(ds, n)
				continue
			}
		}
		ds = append(ds, m.deep(st, a, ts[i], 0))
	}
	if vc.world {
		ds = append(ds, m.node(st, m.worldTok()))
	}
	for i, d := range ds {
		ds[i] = m.box(st, d, -1)
	}
	base := m.callTerm(name, SAny, ds)
	if vc.world {
		st.heap[m.worldTok()] = e.build("eff", SState, "world", nil, base)
	}
	for _, i := range vc.mut {
		m.havocObj(st, args[i], ts[i], base, fmt.Sprintf("m%d", i), vc.keep)
	}
	if vc.same > 0 {
		return args[vc.same-1], st
	}
	n0 := m.nalloc
	r := m.resVal(st, sig, base)
	if vc.lent {
		for a, b := range m.birth {
			if b > n0 {
				m.lent[a] = name
			}
		}
	}
	return r, st
}

// fmtStr: formatted text of integers and strings is their concatenation.
func (m *Mach) fmtStr(st *State, format *Node, s *SliceV) *Node {
	e := m.e
	k, ok := s.ln.constInt()
	if !ok || format.term == nil || format.term.op != "s" {
		return nil
	}
	ty := types.NewInterfaceType(nil, nil)
	parts := []*Node{e.cstr("")}
	f := format.term.str
	arg := int64(0)
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			parts = append(parts, e.cstr(f[i:j]))
			i = j - 1
			continue
		}
		i++
		if i == len(f) {
			return nil
		}
		if f[i] == '%' {
			parts = append(parts, e.cstr("%"))
			continue
		}
		if arg >= k.Int64() {
			return nil
		}
		v, ok := m.loadN(st, m.elemAddr(s, e.cint(SI64, arg), ty), ty).(*Node)
		arg++
		if !ok || v.term == nil || v.term.op != "iface" {
			return nil
		}
		b, ok := m.prog.ifaceTypes[v.term.str].(*types.Basic)
		if !ok {
			return nil
		}
		x := e.asNode(v.term.args[0])
		switch {
		case b.Kind() == types.Int && (f[i] == 'd' || f[i] == 'v'):
			parts = append(parts, e.op("itoa", SStr, x))
		case b.Kind() == types.String && (f[i] == 's' || f[i] == 'v'):
			parts = append(parts, x)
		default:
			return nil
		}
	}
	if arg != k.Int64() {
		return nil
	}
	return e.op("scat", SStr, parts...)
}

// mapKeyText: a map key made of two integers and a separator between them
// identifies the two integers; which separator is used is kept for comparison.
func (m *Mach) mapKeyText(kn *Node) *Node {
	e := m.e
	if nodeSort(kn) != SStr {
		return kn
	}
	return e.mapLeaves(kn, func(t *Term) *Node {
		if t.op != "scat" || len(t.args) != 3 || t.args[0].op != "itoa" || t.args[2].op != "itoa" || t.args[1].op != "s" {
			return e.asNode(t)
		}
		sep := t.args[1].str
		if sep[0] >= '0' && sep[0] <= '9' {
			return e.asNode(t)
		}
		m.keySeps[sep] = true
		return e.build("pkey", SStr, "", nil, e.asNode(t.args[0].args[0]), e.asNode(t.args[2].args[0]))
	})
}

// havocObj: the object v points to is changed by a call.
func (m *Mach) havocObj(st *State, v Val, ty types.Type, base *Node, path string, keep []string) {
	e := m.e
	switch u := ty.Underlying().(type) {
	case *types.Pointer:
		n := e.restrict(v.(*Node), st.reach)
		el := u.Elem()
		if g, ok := m.cfg.tokTypes[typeNameOf(el)]; ok {
			ts, cs := m.leafConds(n)
			for i, t := range ts {
				if t.op == "nil" {
					continue
				}
				m.setType(t, el)
				if g == "world" {
					st.heap[m.worldTok()] = e.build("eff", SState, "world", nil, base)
					continue
				}
				for _, gr := range m.tokGroups(el) {
					if slices.Contains(keep, gr) {
						continue
					}
					k := m.regionTok(t, gr)
					old := m.node(st, k)
					st.heap[k] = e.ite(cs[i], e.build("eff", SState, path+gr, nil, base), old)
				}
			}
			return
		}
		m.storeN(st, n, el, m.havoc(st, el, base, path))
	case *types.Slice:
		s := v.(*SliceV)
		c := e.build("out", SSeq, path, nil, base)
		m.setContent(st, s, e.op("qsub", SSeq, c, e.cint(SI64, 0), s.ln))
	case *types.Map:
		ts, cs := m.leafConds(v.(*Node))
		for i, t := range ts {
			k := m.mapKey(t)
			old := m.node(st, k)
			st.heap[k] = e.ite(cs[i], e.build("out", SState, path, nil, base), old)
		}
	}
}

var pureStd = map[string]bool{"strconv": true, "strings": true, "math": true, "math/bits": true, "path": true, "path/filepath": true,
	"errors": true, "unicode": true, "unicode/utf8": true, "math/cmplx": true, "bytes": true, "encoding/binary": true, "encoding/hex": true, "time.Duration": true}

var pureFn = map[string]bool{"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Sprintln": true, "fmt.Errorf": true, "encoding/json.Marshal": true,
	"encoding/json.MarshalIndent": true, "encoding/json.Valid": true, "math/big.NewFloat": true, "math/big.NewRat": true}

func stdPkg(name string) string {
	// "math/big.Int.Add" -> "math/big"
	i := strings.LastIndex(name, "/")
	j := strings.Index(name[i+1:], ".")
	if j < 0 {
		return name
	}
	return name[:i+1+j]
}

// external is a call to a function outside the repository without a model.
func (m *Mach) external(name string, sig *types.Signature, args []Val, st *State) (Val, *State) {
	e := m.e
	ts := m.allParams(sig)
	var ds []*Node
	for i, a := range args {
		ds = append(ds, m.box(st, m.deep(st, a, ts[i], 0), -1))
	}
	if (name == "encoding/json.Marshal" || name == "encoding/json.MarshalIndent") && len(ds) > 0 {
		ds[0] = m.encoded(ds[0])
	}
	pkg := stdPkg(name)
	pure := pureStd[pkg] || pureFn[name]
	if strings.HasPrefix(name, "math/big.") && sig.Recv() != nil {
		base := m.callTerm(name, SAny, ds)
		rt := sig.Recv().Type()
		if sig.Results().Len() > 0 && types.Identical(sig.Results().At(0).Type(), rt) {
			el := rt.Underlying().(*types.Pointer).Elem()
			m.storeN(st, args[0].(*Node), el, m.havoc(st, el, base, "z"))
			if sig.Results().Len() == 1 {
				return args[0], st
			}
			g := m.resVal(st, sig, base).(*Agg)
			g.f[0] = args[0]
			return g, st
		}
		return m.resVal(st, sig, base), st
	}
	if !pure {
		ds = append(ds, m.node(st, m.extTok()))
		m.noteExt(name)
	}
	base := m.callTerm(name, SAny, ds)
	if !pure {
		st.heap[m.extTok()] = e.build("eff", SState, "ext", nil, base)
		for i, a := range args {
			m.havocLocal(st, a, ts[i], base, fmt.Sprintf("x%d", i))
		}
	}
	return m.resVal(st, sig, base), st
}

// encoded: the encoder writes what a pointer points to.
func (m *Mach) encoded(n *Node) *Node {
	return m.e.mapLeaves(n, func(t *Term) *Node {
		if t.op != "iface" || len(t.args) != 1 || t.args[0].op == "nil" {
			return m.e.leaf(t)
		}
		p, ok := m.prog.ifaceTypes[t.str].(*types.Pointer)
		if !ok {
			return m.e.leaf(t)
		}
		if _, ok := p.Elem().Underlying().(*types.Struct); !ok {
			return m.e.leaf(t)
		}
		for _, f := range []string{"MarshalJSON", "MarshalText"} {
			if types.NewMethodSet(p).Lookup(nil, f) != nil {
				return m.e.leaf(t)
			}
		}
		k := types.TypeString(p.Elem(), nil)
		m.prog.ifaceTypes[k] = p.Elem()
		return m.e.build("iface", SRef, k, nil, m.e.asNode(t.args[0]))
	})
}

// noteExt remembers who called a function whose effects are not known.
func (m *Mach) noteExt(name string) {
	if m.extUsed != nil {
		m.extUsed[name] |= m.extSide
	}
}

// havocLocal: an unknown function may have changed what it was handed.
func (m *Mach) havocLocal(st *State, v Val, ty types.Type, base *Node, path string) {
	switch u := ty.Underlying().(type) {
	case *types.Pointer:
		n := v.(*Node)
		if isOpaqueStd(u.Elem()) && !boxable(u.Elem()) || n.term != nil && local(n.term) {
			for _, t := range leaves(n) {
				if t.op == "nil" || t.op == "outref" {
					return
				}
			}
			m.storeN(st, n, u.Elem(), m.havoc(st, u.Elem(), base, path))
		}
	case *types.Interface:
		n := v.(*Node)
		if n.term != nil && n.term.op == "iface" {
			dt := m.prog.ifaceTypes[n.term.str]
			m.havocLocal(st, m.unpack(m.e.asNode(n.term.args[0]), dt), dt, base, path+"i")
		}
	case *types.Slice:
		s := v.(*SliceV)
		if s.base.term != nil && local(s.base.term) {
			if _, ok := leafSort(u.Elem()); ok && !hasRefs(u.Elem()) {
				c := m.e.build("out", SSeq, path, nil, base)
				m.setContent(st, s, m.e.op("qsub", SSeq, c, m.e.cint(SI64, 0), s.ln))
			} else {
				// elements handed over (variadic arguments)
				if k, ok := s.ln.constInt(); ok {
					for i := int64(0); i < k.Int64(); i++ {
						el := m.loadN(st, m.elemAddr(s, m.e.cint(SI64, i), u.Elem()), u.Elem())
						m.havocLocal(st, el, u.Elem(), base, fmt.Sprintf("%s.%d", path, i))
					}
				}
			}
		}
	}
}

func (m *Mach) vocabInvoke(c *ssa.CallCommon, recv *Node, args []Val, st *State) (Val, *State, bool) {
	name := "invoke." + typeName(c.Value.Type()) + "." + c.Method.Name()
	vc, ok := m.cfg.vocab[name]
	if !ok {
		return nil, nil, false
	}
	e := m.e
	sig := c.Signature()
	ds := []*Node{recv}
	for i, a := range args {
		ds = append(ds, m.box(st, m.deep(st, a, sig.Params().At(i).Type(), 0), -1))
	}
	if vc.world || !vc.pure {
		ds = append(ds, m.node(st, m.worldTok()))
	}
	base := m.callTerm(name, SAny, ds)
	if vc.world {
		st.heap[m.worldTok()] = e.build("eff", SState, "world", nil, base)
	}
	return m.resVal(st, sig, base), st, true
}

func (m *Mach) unknownInvoke(c *ssa.CallCommon, recv *Node, args []Val, st *State) (Val, *State, bool) {
	if c.Method.Pkg() != nil && strings.HasPrefix(c.Method.Pkg().Path(), modPath) {
		return nil, nil, false
	}
	name := "invoke." + c.Method.Name()
	sig := c.Signature()
	ds := []*Node{recv}
	for i, a := range args {
		v := m.deep(st, a, sig.Params().At(i).Type(), 0)
		if v != nil && types.Identical(sig.Params().At(i).Type().Underlying(), types.NewSlice(types.Typ[types.Uint8])) {
			v = m.e.mapLeaves(v, func(t *Term) *Node {
				if t.sort != SSeq {
					return m.e.leaf(t)
				}
				if q := m.e.listed(t); q != nil {
					return m.e.leaf(q)
				}
				return m.e.leaf(t)
			})
		}
		ds = append(ds, m.box(st, v, -1))
	}
	if c.Method.Name() == "Error" {
		return m.resVal(st, sig, m.callTerm(name, SAny, ds)), st, true
	}
	ds = append(ds, m.node(st, m.extTok()))
	m.noteExt(name)
	base := m.callTerm(name, SAny, ds)
	st.heap[m.extTok()] = m.e.build("eff", SState, "ext", nil, base)
	return m.resVal(st, sig, base), st, true
}

// ---- builtins

func (m *Mach) builtin(f *frame, b *ssa.Builtin, c *ssa.CallCommon, a []Val, st *State) (Val, *State) {
	e := m.e
	switch b.Name() {
	case "len":
		switch x := a[0].(type) {
		case *SliceV:
			return x.ln, st
		case *Node:
			t := c.Args[0].Type()
			switch u := t.Underlying().(type) {
			case *types.Basic:
				return e.op("strlen", SI64, x), st
			case *types.Map:
				return m.overLeaves(x, func(t *Term) Val {
					if t.op == "nil" {
						return e.cint(SI64, 0)
					}
					return e.op("maplen", SI64, m.node(st, m.mapKey(t)))
				}), st
			case *types.Pointer:
				return e.cint(SI64, u.Elem().Underlying().(*types.Array).Len()), st
			case *types.Array:
				return e.cint(SI64, u.Len()), st
			}
		case *Agg:
			return e.cint(SI64, int64(len(x.f))), st
		}
	case "cap":
		if x, ok := a[0].(*SliceV); ok {
			return e.op("capof", SI64, x.ln), st
		}
	case "append":
		return m.appendTo(st, a[0].(*SliceV), a[1], c.Args[0].Type(), c.Args[1].Type()), st
	case "copy":
		dst := a[0].(*SliceV)
		var src, n *Node
		if s, ok := a[1].(*SliceV); ok {
			src, n = m.sliceContent(st, s), s.ln
		} else {
			src = e.build("strbytes", SSeq, "[]byte", nil, N(a[1]))
			n = e.op("strlen", SI64, N(a[1]))
		}
		k := e.ite(e.op("lt", SBool, n, dst.ln), n, dst.ln)
		old := m.sliceContent(st, dst)
		nv := e.op("qcat", SSeq, e.op("qsub", SSeq, src, e.cint(SI64, 0), k), e.op("qsub", SSeq, old, k, e.op("sub", SI64, dst.ln, k)))
		m.setContent(st, dst, nv)
		return k, st
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		kn := m.mapKeyText(m.pack(a[1], mt.Key()))
		ts, cs := m.leafConds(e.restrict(N(a[0]), st.reach))
		for i, t := range ts {
			if t.op == "nil" {
				continue
			}
			key := m.mapKey(t)
			old := m.node(st, key)
			st.heap[key] = e.ite(cs[i], e.op("mdel", SState, old, kn), old)
		}
		return &Agg{}, st
	case "min", "max":
		r := N(a[0])
		s := nodeSort(r)
		for _, v := range a[1:] {
			y := N(v)
			if s == SF64 {
				r = e.op("f"+b.Name(), SF64, r, y)
				continue
			}
			c := e.op("lt", SBool, y, r)
			if b.Name() == "max" {
				c = e.op("lt", SBool, r, y)
			}
			r = e.ite(c, y, r)
		}
		return r, st
	case "clear":
		if n, ok := a[0].(*Node); ok {
			for _, t := range leaves(n) {
				if t.op != "nil" {
					st.heap[m.mapKey(t)] = e.raw("mempty", SState, "")
				}
			}
			return &Agg{}, st
		}
		s := a[0].(*SliceV)
		el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		m.setContent(st, s, e.comp(s.ln, m.pack(m.zero(el), el), 0))
		return &Agg{}, st
	case "print", "println":
		return &Agg{}, st
	case "recover":
		return e.nilRef(), st
	case "close":
		return &Agg{}, st
	case "ssa:wrapnilchk":
		return a[0], st
	}
	undecided("%s: builtin %s", f.fn, b.Name())
	return nil, nil
}

// appendTo: the new elements go into the same storage where it is known to
// extend beyond the slice, and into new storage otherwise.
func (m *Mach) appendTo(st *State, s *SliceV, v Val, ty, vt types.Type) Val {
	e := m.e
	el := ty.Underlying().(*types.Slice).Elem()
	var add, n *Node
	if x, ok := v.(*SliceV); ok {
		add, n = m.sliceContent(st, x), x.ln
	} else {
		add = e.build("strbytes", SSeq, "[]byte", nil, N(v))
		n = e.op("strlen", SI64, N(v))
	}
	if k, ok := n.constInt(); ok && k.Sign() == 0 {
		return s
	}
	end := e.op("add", SI64, s.off, s.ln)
	newEnd := e.op("add", SI64, end, n)
	newLen := e.op("add", SI64, s.ln, n)
	// does it fit in what is already there?
	fit := m.overLeaves(e.restrict(s.base, st.reach), func(t *Term) Val {
		if t.op == "nil" {
			return e.F
		}
		L := e.op("qlen", SI64, m.content(st, t))
		return e.op("le", SBool, newEnd, L)
	}).(*Node)
	fit = e.restrict(fit, st.reach)
	old := m.sliceContent(st, s)
	joined := e.op("qcat", SSeq, old, add)
	fresh := func() *SliceV { return m.newSlice(st, el, joined, newLen) }
	inPlace := func(c *Node) *SliceV {
		ts, cs := m.leafConds(e.restrict(s.base, st.reach))
		for i, t := range ts {
			if t.op == "nil" {
				continue
			}
			cc := m.content(st, t)
			L := e.op("qlen", SI64, cc)
			nv := e.op("qcat", SSeq, e.op("qsub", SSeq, cc, e.cint(SI64, 0), end), add,
				e.op("qsub", SSeq, cc, newEnd, e.op("sub", SI64, L, newEnd)))
			k := m.contKey(t)
			st.heap[k] = e.ite(e.and(c, cs[i]), nv, cc)
		}
		return &SliceV{s.base, s.off, newLen}
	}
	switch fit {
	case e.F:
		return fresh()
	case e.T:
		return inPlace(e.T)
	}
	// a slice that ends where its storage ends cannot fit more
	nonneg := false
	if n.term != nil {
		if lo, _ := e.bound(n.term); lo != nil && lo.Sign() > 0 {
			nonneg = true
		}
	}
	full := m.overLeaves(e.restrict(s.base, st.reach), func(t *Term) Val {
		if t.op == "nil" {
			return e.T
		}
		return e.op("eq", SBool, end, e.op("qlen", SI64, m.content(st, t)))
	}).(*Node)
	if nonneg && e.restrict(full, st.reach) == e.T {
		return fresh()
	}
	if e.restrict(full, st.reach) == e.T {
		// n may be zero: the result shows the same elements either way
		return fresh()
	}
	f := fresh()
	p := inPlace(fit)
	return m.iteVal(fit, p, f)
}

func (m *Mach) goEffect(f *frame, g *ssa.Go, fv Val, args []Val, st *State) *State {
	undecided("%s: starts a goroutine", f.fn)
	return nil
}

func (m *Mach) next(f *frame, x *ssa.Next, st *State) Val {
	e := m.e
	it, ok := m.get0(f, x.Iter).(*Node)
	if !ok || x.IsString {
		undecided("%s: range over a string", f.fn)
	}
	if it.term == nil {
		undecided("%s: several iterators", f.fn)
	}
	inf := m.iters[it.term]
	k := m.get(st, it.term).(*Node)
	m0 := e.restrict(inf.m0, st.reach)
	okv := e.op("lt", SBool, k, e.op("maplen", SI64, m0))
	mt := inf.ty.Underlying().(*types.Map)
	key := e.build("mapkey", m.packSort(mt.Key()), typeName(mt.Key()), nil, m0, k)
	cur, _ := m.mapGet(st, inf.mp, inf.ty, m.unpack(key, mt.Key()))
	st.heap[it.term] = e.ite(okv, e.op("add", SI64, k, e.cint(SI64, 1)), k)
	return &Agg{[]Val{okv, m.unpack(key, mt.Key()), cur}}
}

func (m *Mach) rangeStart(st *State, mp *Node, ty types.Type) Val {
	e := m.e
	if _, ok := ty.Underlying().(*types.Map); !ok {
		undecided("range over a string")
	}
	a := m.newAlloc(types.Typ[types.Int], "it")
	st.heap[a] = e.cint(SI64, 0)
	m0 := m.overLeaves(e.restrict(mp, st.reach), func(t *Term) Val {
		if t.op == "nil" {
			return e.raw("mempty", SState, "")
		}
		return m.node(st, m.mapKey(t))
	}).(*Node)
	m.iters[a] = &iterInfo{m0: m0, mp: mp, ty: ty}
	return e.leaf(a)
}
