package liquidity_amounts

import (
	fm "uniswap-simulator/lib/fullmath"
	ui "uniswap-simulator/uint256"
)

func zzSorted(a, b *ui.Int) (*ui.Int, *ui.Int) {
	if b.Lt(a) {
		return b, a
	}
	return a, b
}

func zzQ96() *ui.Int { return new(ui.Int).Lsh(ui.NewInt(1), 96) }

// amount0 * (lo*hi/2^96) / (hi-lo)
func zzLiq0(a, b, amount *ui.Int) *ui.Int {
	lo, hi := zzSorted(a, b)
	return fm.ZZMulDiv(amount, fm.ZZMulDiv(lo, hi, zzQ96()), new(ui.Int).Sub(hi, lo))
}

// amount1 * 2^96 / (hi-lo)
func zzLiq1(a, b, amount *ui.Int) *ui.Int {
	lo, hi := zzSorted(a, b)
	return fm.ZZMulDiv(amount, zzQ96(), new(ui.Int).Sub(hi, lo))
}

func ZZSpec_GetLiquidityForAmount(p, a, b, amount0, amount1 *ui.Int) *ui.Int {
	lo, hi := zzSorted(a, b)
	if !p.Gt(lo) {
		return zzLiq0(lo, hi, amount0)
	}
	if !p.Lt(hi) {
		return zzLiq1(lo, hi, amount1)
	}
	l0, l1 := zzLiq0(p, hi, amount0), zzLiq1(lo, p, amount1)
	if l0.Lt(l1) {
		return l0
	}
	return l1
}

func zzAmt0(a, b, liquidity *ui.Int) *ui.Int {
	lo, hi := zzSorted(a, b)
	n := new(ui.Int).Lsh(liquidity, 96)
	v := fm.ZZMulDiv(n, new(ui.Int).Sub(hi, lo), hi)
	return v.Div(v, lo)
}

func zzAmt1(a, b, liquidity *ui.Int) *ui.Int {
	lo, hi := zzSorted(a, b)
	return fm.ZZMulDiv(liquidity, new(ui.Int).Sub(hi, lo), zzQ96())
}

func ZZSpec_GetAmountsForLiquidity(p, a, b, liquidity *ui.Int) (*ui.Int, *ui.Int) {
	lo, hi := zzSorted(a, b)
	switch {
	case !p.Gt(lo):
		return zzAmt0(lo, hi, liquidity), new(ui.Int)
	case p.Lt(hi):
		return zzAmt0(p, hi, liquidity), zzAmt1(lo, p, liquidity)
	}
	return new(ui.Int), zzAmt1(lo, hi, liquidity)
}

func zzSpec_getLiquidityForAmount0(a, b, amount *ui.Int) *ui.Int { return zzLiq0(a, b, amount) }
func zzSpec_getLiquidityForAmount1(a, b, amount *ui.Int) *ui.Int { return zzLiq1(a, b, amount) }
func zzSpec_getAmount0ForLiquidity(a, b, l *ui.Int) *ui.Int      { return zzAmt0(a, b, l) }
func zzSpec_getAmount1ForLiquidity(a, b, l *ui.Int) *ui.Int      { return zzAmt1(a, b, l) }
