package main

import (
	"fmt"
	"go/types"
	"math/big"
)

// The functions whose behaviour each property is about.

func tg(fn, spec string) *target { return &target{fn: fn, spec: spec} }

func std(pkg string, fns ...string) []rule {
	var rs []rule
	for _, f := range fns {
		s := f
		for i := len(f) - 1; i >= 0; i-- {
			if f[i] == '.' {
				s = f[i+1:]
				break
			}
		}
		t := tg(pkg+"."+f, pkg+".zzSpec_"+s)
		t.ticks = pkg == "tickdata"
		rs = append(rs, t)
	}
	return rs
}

// at gives rules a configuration and fallbacks.
func at(cfg func() *Cfg, rs []rule, retry ...func() *Cfg) []rule {
	for _, r := range rs {
		if t, ok := r.(*target); ok {
			t.cfg, t.retry = cfg, retry
		}
	}
	return rs
}

func cat(rs ...[]rule) []rule {
	var out []rule
	for _, r := range rs {
		out = append(out, r...)
	}
	return out
}

// positiveUnit: rounding to a unit makes sense for positive units.
func positiveUnit(rs []rule) []rule {
	for _, r := range rs {
		t := r.(*target)
		t.cfg = func() *Cfg { return &Cfg{small: true} }
		t.assume = func(m *Mach, st *State, a []Val) *Node {
			return m.e.op("lt", SBool, m.e.cint(SI64, 0), a[1].(*Node))
		}
	}
	return rs
}

// limit: argument i is within a range.
func limit(i int, lo, hi int64, rs []rule) []rule {
	for _, r := range rs {
		r.(*target).limits = map[int][2]int64{i: {lo, hi}}
	}
	return rs
}

// given: what holds of the receiver between calls.
func given(f func(m *Mach, st *State, a []Val) *Node, rs []rule) []rule {
	for _, r := range rs {
		r.(*target).assume = f
	}
	return rs
}

// named: a field of a structure.
func named(v Val, ty types.Type, name string) Val {
	s := ty.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return v.(*Agg).f[i]
		}
	}
	undecided("%s has no field %s", ty, name)
	return nil
}

// inRing: the next place of a price history is one of its places. NewPrices and
// Add, the only functions that set it, keep this.
func inRing(m *Mach, st *State, a []Val) *Node {
	e := m.e
	p := a[0].(*Node).term
	ty := m.prog.funcs["prices.Prices.Add"].Params[0].Type().Underlying().(*types.Pointer).Elem()
	v := m.load(st, p, ty)
	ring, idx, n := named(v, ty, "prices").(*SliceV), named(v, ty, "index").(*Node), named(v, ty, "length").(*Node)
	return e.and(e.op("eq", SBool, n, ring.ln), e.and(e.op("le", SBool, e.cint(SI64, 0), idx), e.op("lt", SBool, idx, n)))
}

// startsInTime: the simulation does not start after the last transaction.
func startsInTime(m *Mach, st *State, a []Val) *Node {
	e := m.e
	ts := a[6].(*SliceV)
	el := m.prog.funcs["executor.CreateExecution"].Params[6].Type().Underlying().(*types.Slice).Elem()
	last := e.build("sel", m.packSort(el), typeName(el), nil, m.sliceContent(st, ts), e.op("sub", SI64, ts.ln, e.cint(SI64, 1)))
	at := named(m.unpack(last, el), el, "Timestamp").(*Node)
	return e.op("le", SBool, e.cint(SI64, 0), e.op("tdiv", SI64, e.op("sub", SI64, at, a[1].(*Node)), a[3].(*Node)))
}

// ordered: argument i is below argument j, as in every range.
func ordered(i, j int, rs []rule) []rule {
	for _, r := range rs {
		r.(*target).assume = func(m *Mach, st *State, a []Val) *Node {
			return m.e.op("lt", SBool, a[i].(*Node), a[j].(*Node))
		}
	}
	return rs
}

// what each kind of strategy offers
var strategies = []string{"V2", "NoProvision", "ConstantInterval", "IntervalAroundPrice", "TwoIntervalAroundPrice", "LimitOrder",
	"IntervalAroundAverage", "IntervalAroundPriceAndSwap", "BollingerBands", "BollingerBandsFillUp", "FillUp", "VolatilitySizedInterval"}

func strat(methods ...string) []rule {
	var rs []rule
	for _, s := range strategies {
		t := s + "Strategy"
		for _, m := range methods {
			fn := "strategy." + t + "." + m
			if m == "New" {
				fn = "strategy.New" + t
			}
			rs = append(rs, tg(fn, "strategy.zzSpec_"+t+"_"+m))
		}
	}
	return at(stratCfg, rs, stratOpenCfg)
}

func words(fns ...string) []rule {
	var rs []rule
	for _, f := range fns {
		rs = append(rs, tg("uint256.Int."+f, "uint256.zzSpec_"+f))
	}
	return at(wordCfg, rs)
}

// numbers: the methods built on others, which are taken by their meaning.
func numbers(fns ...string) []rule {
	var rs []rule
	for _, f := range fns {
		rs = append(rs, tg("uint256.Int."+f, "uint256.zzSpec_"+f))
	}
	return rs
}

func properties() []*property {
	tv := "translation_validation"
	// the operations other rules rely on
	mul := std("fullmath", "MulDiv", "MulDivRoundingUp")
	deltas := std("sqrtprice_math", "GetAmount0Delta", "GetAmount1Delta", "GetAmount0DeltaRounded", "GetAmount1DeltaRounded")
	nexts := std("sqrtprice_math", "GetNextSqrtPriceFromInput", "GetNextSqrtPriceFromOutput")
	step := limit(4, 0, 999_999, std("swapmath", "ComputeSwapStep"))
	next := std("tickdata", "TickData.NextInitializedTickWithinOneWord")
	ticks := func(fns ...string) []rule {
		for i := range fns {
			fns[i] = "TickData." + fns[i]
		}
		return std("tickdata", fns...)
	}
	prices := std("tickmath", "TickMath.GetSqrtRatioAtTick", "TickMath.GetTickAtSqrtRatio")
	inside := ordered(1, 2, std("tickdata", "TickData.GetFeeGrowthInside"))
	units := positiveUnit(std("tickmath", "Round", "Ceil", "Floor"))
	return []*property{
		{id: "C01", level: tv, rules: cat(at(poolCfg, std("pool", "Pool.ExactInputSwap", "Pool.ExactOutputSwap")), step, next, ticks("Cross"), prices)},
		{id: "C02", level: tv, rules: cat(step, deltas, nexts, mul)},
		{id: "C03", level: tv, rules: cat(deltas, nexts, mul)},
		{id: "C04", level: tv, rules: cat(mul, at(wordCfg, std("uint256", "UmulStep", "UmulHop", "Umul")), longDivisions())},
		{id: "C05", level: tv, rules: cat(prices, units, at(tableCfg, []rule{tg("tickmath.zzCode_PriceAt", "tickmath.zzPriceAt")}))},
		{id: "C06", level: tv, rules: next},
		{id: "C07", level: tv, rules: ticks("UpdateTick", "ClearTick", "Cross", "GetTick")},
		{id: "C08", level: tv, rules: inside},
		{id: "C09", level: tv, rules: cat(std("position", "NewPosition", "Info.Update"), at(poolCfg, std("pool", "Pool.MintStrategy", "Pool.BurnStrategy", "Pool.CollectStrategy"), poolOpenCfg), inside, mul)},
		{id: "C10", level: tv, rules: cat(at(poolCfg, std("pool", "Pool.MintStrategy", "Pool.BurnStrategy", "Pool.Mint", "Pool.Burn"), poolOpenCfg), ticks("UpdateTick", "ClearTick"), deltas)},
		{id: "C11", level: tv, rules: cat(at(poolCfg, std("pool", "Pool.Flash", "NewPool"), poolOpenCfg), mul, prices)},
		{id: "C12", level: tv, rules: cat(std("position", "Info.Clone"), std("tickdata", "TickData.Clone"), std("pool", "Pool.Clone"))},
		{id: "C13", level: "other", rules: cat([]rule{argumentsKept()}, strat("New"))},
		{id: "C14", level: "other", rules: []rule{unchanged(), constants{}, &target{fn: "tickmath.zzCode_PriceAt", spec: "tickmath.zzPriceAt", cfg: tableCfg}}},
		{id: "C15", level: tv, rules: cat(strat("Init", "Rebalance", "BurnAll"), std("liquidity_amounts", "GetLiquidityForAmount"))},
		{id: "C16", level: tv, rules: strat("BurnAll", "Rebalance", "Init")},
		{id: "C17", level: tv, rules: cat(strat("Init", "Rebalance", "New", "MakeSnapshot"), units, given(inRing, std("prices", "Prices.Average", "Prices.Volatility")))},
		{id: "C18", level: tv, rules: cat(strat("GetAmounts", "GetPool"), std("liquidity_amounts", "GetAmountsForLiquidity"))},
		{id: "C19", level: tv, rules: cat(std("liquidity_amounts", "GetLiquidityForAmount", "GetAmountsForLiquidity"), mul)},
		{id: "C20", level: tv, rules: cat(std("prices", "NewPrices"), given(inRing, std("prices", "Prices.Add", "Prices.Average", "Prices.Volatility")))},
		{id: "C21", level: tv, rules: at(execCfg, std("executor", "Execution.Run"))},
		{id: "C22", level: tv, rules: at(execCfg, cat(std("executor", "Execution.Run"), given(startsInTime, std("executor", "CreateExecution"))))},
		{id: "C23", level: tv, rules: at(reportCfg, std("main", "getReturns", "calculateMaximumDrawdown", "calculateDownDeviation", "calculateVar", "calculateStd"))},
		{id: "C24", level: tv, rules: cat(at(reportCfg, std("main", "runAndAppend", "createResult")), reportTags())},
		{id: "C25", level: "other", rules: append([]rule{failures()}, reportTags()[1:]...)},
		{id: "C26", level: tv, rules: cat(std("transaction", "Transaction.MarshalJSON"), at(reportCfg, std("main", "getTransactions")), std("main", "stringToUint256"), inputTags(), bigs())},
		{id: "C27", level: "other", rules: cat([]rule{everyRun(), doneLast()}, at(reportCfg, std("main", "runAndAppend")))},
		{id: "C28", level: "other", rules: []rule{determined()}},
		{id: "C29", level: tv, rules: cat(words("Add", "Sub", "AddOverflow", "SubOverflow", "AddUint64", "SubUint64", "Neg", "Abs", "Not", "And", "Or", "Xor", "IsZero", "IsUint64", "Eq", "Lt", "Gt", "LtUint64", "GtUint64", "Sign", "Slt", "Sgt", "Cmp",
			"Set", "Clear", "SetOne", "SetUint64", "SetAllOne", "Uint64", "Uint64WithOverflow", "Clone", "BitLen", "ByteLen"), at(wordCfg, std("uint256", "NewInt")), shifts("Lsh", "Rsh", "SRsh"), positions(1, "Byte"), positions(2, "ExtendSign"))},
		{id: "C30", level: tv, rules: cat(at(wordCfg, std("uint256", "UmulStep", "UmulHop", "Umul")), words("Mul", "MulOverflow", "squared"),
			at(divCfg, numbers("Div", "Mod", "SDiv", "SMod", "MulMod", "MulModWithReciprocal", "AddMod", "Sqrt")), at(powCfg, numbers("Exp")), longDivisions(),
			at(wordCfg, std("uint256", "reciprocal2by1", "udivrem2by1", "addTo", "subMulTo", "udivremBy1", "udivremKnuth", "Reciprocal", "reduce4")))},
		{id: "C31", level: tv, rules: cat(lengths(1, 0, 40, true, "Int.SetBytes"), at(wordCfg, std("uint256", "Int.Bytes32", "Int.Bytes20", "Int.WriteToArray32", "Int.WriteToArray20", "Int.Bytes", "bigEndianUint40", "bigEndianUint48", "bigEndianUint56")),
			setBytes(), lengths(1, 0, 36, true, "Int.WriteToSlice"), padded(), texts(), bitLens(256, "Int.Hex"), eitherOf(at(hexCfg, std("uint256", "Int.String", "Int.MarshalText")), bitLens(256, "Int.String", "Int.MarshalText")), bitLens(257, "Int.EncodeRLP"), bigs())},
		{id: "C32", level: tv, rules: sharing()},
		{id: "C34", level: "other", rules: []rule{accuracy{}}},
	}
}

// setBytes: the first n bytes of a slice that has them.
func setBytes() []rule {
	var rs []rule
	for n := 1; n <= 32; n++ {
		t := tg(fmt.Sprintf("uint256.Int.SetBytes%d", n), fmt.Sprintf("uint256.zzSpec_SetBytes%d", n))
		t.cfg, t.note = wordCfg, fmt.Sprintf("slices of at least %d bytes", n)
		t.assume = func(m *Mach, st *State, a []Val) *Node {
			return m.e.op("le", SBool, m.e.cint(SI64, int64(n)), a[1].(*SliceV).ln)
		}
		rs = append(rs, t)
	}
	return rs
}

// padded: every width up to more than the widest number, and all others.
func padded() []rule {
	t := tg("uint256.Int.PaddedBytes", "uint256.zzSpec_PaddedBytes")
	t.cfg, t.args = wordCfg, map[int]func(m *Mach, st *State) Val{1: nil}
	return []rule{&sweep{t: t, n: 37, arg: func(m *Mach, st *State, k int) Val { return m.e.cint(SI64, int64(k)) },
		rest: func(m *Mach, st *State, a []Val) *Node { return m.e.op("lt", SBool, m.e.cint(SI64, 36), a[1].(*Node)) }}}
}

// texts: hexadecimal text of every length that can be a number, and all longer.
func texts() []rule {
	var rs []rule
	for _, x := range []struct {
		fn, spec string
		i, n     int
	}{{"uint256.FromHex", "FromHex", 0, 67}, {"uint256.zzDo_UnmarshalText", "UnmarshalText", 1, 67}, {"uint256.zzDo_UnmarshalJSON", "UnmarshalJSON", 1, 69}} {
		t := tg(x.fn, "uint256.zzSpec_"+x.spec)
		t.cfg, t.args = wordCfg, map[int]func(m *Mach, st *State) Val{x.i: nil}
		rs = append(rs, &sweep{t: t, n: x.n + 1, chunk: 4, arg: func(m *Mach, st *State, k int) Val { return byteText(t.fn, x.i, k, k == x.n)(m, st) }})
	}
	return rs
}

// bitLens: numbers of every length in bits.
func bitLens(last int, fns ...string) []rule {
	var rs []rule
	for _, f := range fns {
		t := tg("uint256."+f, "uint256.zzSpec_"+lastPart(f))
		t.cfg, t.args = wordCfg, map[int]func(m *Mach, st *State) Val{0: nil}
		rs = append(rs, &sweep{t: t, n: last + 1, arg: func(m *Mach, st *State, k int) Val {
			if k > 256 {
				return m.e.nilRef()
			}
			z := m.param("z", m.prog.funcs[t.fn].Params[0].Type()).(*Node)
			m.setU(st, z, m.bitsOf(k))
			return z
		}})
	}
	return rs
}

// bitsOf: any number of k bits.
func (m *Mach) bitsOf(k int) *Node {
	e := m.e
	var ws []*Node
	for i := 0; i < 4; i++ {
		w := e.cint(SU64, 0)
		if k > 64*i {
			w = m.param(fmt.Sprintf("z%d[%d]", k, i), types.Typ[types.Uint64]).(*Node)
			if k == 64*i+1 {
				w = e.cint(SU64, 1)
			} else if k <= 64*(i+1) {
				e.within(w.term, [2]*big.Int{p2(k - 64*i - 1), new(big.Int).Sub(p2(k-64*i), one)})
			}
		}
		ws = append(ws, w)
	}
	return e.op("pack", SU256, ws...)
}

func bigs() []rule {
	s := std("uint256", "Int.SToBig")[0].(*target)
	s.own = []string{"uint256.Int.SToBig"}
	return append(at(wordCfg, std("uint256", "Int.ToBig", "Int.SetFromBig", "FromBig")), s, std("uint256", "Int.Format")[0])
}
