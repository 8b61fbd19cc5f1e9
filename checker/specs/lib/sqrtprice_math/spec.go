package sqrtprice_math

import (
	fm "uniswap-simulator/lib/fullmath"
	ui "uniswap-simulator/uint256"
)

func zzOrder(a, b *ui.Int) (*ui.Int, *ui.Int) {
	if a.Gt(b) {
		return b, a
	}
	return a, b
}

func zzQ96() *ui.Int { return new(ui.Int).Lsh(ui.NewInt(1), 96) }

func zzCeilDiv(x, y *ui.Int) *ui.Int { return fm.ZZMulDivUp(x, ui.NewInt(1), y) }

// ceil(ceil(L*2^96*(b-a)/b)/a) or floor(floor(L*2^96*(b-a)/b)/a)
func ZZSpec_GetAmount0Delta(a, b, liquidity *ui.Int, up bool) *ui.Int {
	lo, hi := zzOrder(a, b)
	n := new(ui.Int).Lsh(liquidity, 96)
	w := new(ui.Int).Sub(hi, lo)
	if up {
		return zzCeilDiv(fm.ZZMulDivUp(n, w, hi), lo)
	}
	return new(ui.Int).Div(fm.ZZMulDiv(n, w, hi), lo)
}

// L*(b-a)/2^96
func ZZSpec_GetAmount1Delta(a, b, liquidity *ui.Int, up bool) *ui.Int {
	lo, hi := zzOrder(a, b)
	w := new(ui.Int).Sub(hi, lo)
	if up {
		return fm.ZZMulDivUp(liquidity, w, zzQ96())
	}
	return fm.ZZMulDiv(liquidity, w, zzQ96())
}

// positive liquidity rounds against the payer, a withdrawal rounds down
func ZZSpec_GetAmount0DeltaRounded(a, b, liquidity *ui.Int) *ui.Int {
	if liquidity.Slt(new(ui.Int)) {
		v := ZZSpec_GetAmount0Delta(a, b, new(ui.Int).Neg(liquidity), false)
		return new(ui.Int).Neg(v)
	}
	return ZZSpec_GetAmount0Delta(a, b, liquidity, true)
}

func ZZSpec_GetAmount1DeltaRounded(a, b, liquidity *ui.Int) *ui.Int {
	if liquidity.Slt(new(ui.Int)) {
		v := ZZSpec_GetAmount1Delta(a, b, new(ui.Int).Neg(liquidity), false)
		return new(ui.Int).Neg(v)
	}
	return ZZSpec_GetAmount1Delta(a, b, liquidity, true)
}

func zzGuard(p, liquidity *ui.Int) {
	if p.Sign() != 1 || liquidity.Sign() != 1 {
		panic("price and liquidity must be positive")
	}
}

func ZZSpec_GetNextSqrtPriceFromInput(p, liquidity, in *ui.Int, zeroForOne bool) *ui.Int {
	zzGuard(p, liquidity)
	if zeroForOne {
		return zzNext0(p, liquidity, in, true)
	}
	return zzNext1(p, liquidity, in, true)
}

func ZZSpec_GetNextSqrtPriceFromOutput(p, liquidity, out *ui.Int, zeroForOne bool) *ui.Int {
	zzGuard(p, liquidity)
	if zeroForOne {
		return zzNext1(p, liquidity, out, false)
	}
	return zzNext0(p, liquidity, out, false)
}

// ceil(L*2^96*p / (L*2^96 ± x*p)), and ceil(L*2^96 / (L*2^96/p + x)) when the product overflows
func zzNext0(p, liquidity, x *ui.Int, add bool) *ui.Int {
	if x.IsZero() {
		return p
	}
	n := new(ui.Int).Lsh(liquidity, 96)
	xp := new(ui.Int).Mul(x, p)
	if !add {
		return fm.ZZMulDivUp(n, p, new(ui.Int).Sub(n, xp))
	}
	d := new(ui.Int).Add(n, xp)
	exact := new(ui.Int).Div(xp, x).Eq(p) && !d.Lt(n)
	if exact {
		return fm.ZZMulDivUp(n, p, d)
	}
	q := new(ui.Int).Div(n, p)
	return zzCeilDiv(n, q.Add(q, x))
}

// p + floor(x*2^96/L), or p - ceil(x*2^96/L)
func zzNext1(p, liquidity, x *ui.Int, add bool) *ui.Int {
	if add {
		q := new(ui.Int).Lsh(x, 96)
		q.Div(q, liquidity)
		return q.Add(q, p)
	}
	return new(ui.Int).Sub(p, fm.ZZMulDivUp(x, zzQ96(), liquidity))
}

func zzSpec_getNext0(p, liquidity, x *ui.Int, add bool) *ui.Int { return zzNext0(p, liquidity, x, add) }
func zzSpec_getNext1(p, liquidity, x *ui.Int, add bool) *ui.Int { return zzNext1(p, liquidity, x, add) }
