package swapmath

import (
	fm "uniswap-simulator/lib/fullmath"
	sm "uniswap-simulator/lib/sqrtprice_math"
	ui "uniswap-simulator/uint256"
)

func ZZSpec_ComputeSwapStep(cur, target, liquidity, remaining *ui.Int, feePips int) (next, in, out, fee *ui.Int) {
	down := !cur.Lt(target)
	exactIn := remaining.Sign() >= 0
	denom := new(ui.Int).Sub(ui.NewInt(1000000), ui.NewInt(uint64(feePips)))

	amountIn := func(p *ui.Int) *ui.Int {
		if down {
			return sm.ZZSpec_GetAmount0Delta(p, cur, liquidity, true)
		}
		return sm.ZZSpec_GetAmount1Delta(cur, p, liquidity, true)
	}
	amountOut := func(p *ui.Int) *ui.Int {
		if down {
			return sm.ZZSpec_GetAmount1Delta(p, cur, liquidity, false)
		}
		return sm.ZZSpec_GetAmount0Delta(cur, p, liquidity, false)
	}

	if exactIn {
		usable := new(ui.Int).Mul(remaining, denom)
		usable.Div(usable, ui.NewInt(1000000))
		whole := amountIn(target)
		if usable.Lt(whole) {
			next = sm.ZZSpec_GetNextSqrtPriceFromInput(cur, liquidity, usable, down)
			if next.Eq(target) {
				in = whole
			} else {
				in = amountIn(next)
			}
		} else {
			next = target.Clone()
			in = whole
		}
		out = amountOut(next)
		if next.Eq(target) {
			fee = fm.ZZMulDivUp(in, ui.NewInt(uint64(feePips)), denom)
		} else {
			fee = new(ui.Int).Sub(remaining, in)
		}
		return
	}
	wanted := new(ui.Int).Neg(remaining)
	whole := amountOut(target)
	if wanted.Lt(whole) {
		next = sm.ZZSpec_GetNextSqrtPriceFromOutput(cur, liquidity, wanted, down)
		if next.Eq(target) {
			out = whole
		} else {
			out = amountOut(next)
		}
	} else {
		next = target.Clone()
		out = whole
	}
	in = amountIn(next)
	if out.Gt(wanted) {
		out = wanted.Clone()
	}
	fee = fm.ZZMulDivUp(in, ui.NewInt(uint64(feePips)), denom)
	return
}
