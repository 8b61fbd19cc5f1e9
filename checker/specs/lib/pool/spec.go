package pool

import (
	"strconv"
	fm "uniswap-simulator/lib/fullmath"
	"uniswap-simulator/lib/position"
	sm "uniswap-simulator/lib/sqrtprice_math"
	"uniswap-simulator/lib/swapmath"
	td "uniswap-simulator/lib/tickdata"
	"uniswap-simulator/lib/tickmath"
	ui "uniswap-simulator/uint256"
)

const (
	zzMinTick = -887272
	zzMaxTick = 887272
)

func zzQ128() *ui.Int { return new(ui.Int).Lsh(ui.NewInt(1), 128) }

func zzMinSqrt() *ui.Int { return ui.NewInt(4295128739) }

func zzMaxSqrt() *ui.Int {
	x, _ := ui.FromHex("0xfffd8963efd1fc6a506488495d951d5263988d26")
	return x
}

func zzPrice(tick int) *ui.Int { return tickmath.TM.GetSqrtRatioAtTick(tick) }

func zzKey(lower, upper int) string { return strconv.Itoa(lower) + "-" + strconv.Itoa(upper) }

func zzCheckRange(lower, upper int) {
	if lower >= upper || lower < zzMinTick || upper > zzMaxTick {
		panic("range")
	}
}

func zzSpec_NewPool(token0, token1 string, fee int, price *ui.Int) *Pool {
	if fee < 0 || fee > 1000000 {
		panic("fee")
	}
	spacing := 0
	switch fee {
	case 500:
		spacing = 10
	case 3000:
		spacing = 60
	case 10000:
		spacing = 200
	}
	return &Pool{
		Token0: token0, Token1: token1, Fee: fee,
		SqrtRatioX96: price, Liquidity: new(ui.Int),
		FeeGrowthGlobal0X128: new(ui.Int), FeeGrowthGlobal1X128: new(ui.Int),
		TickSpacing: spacing, TickCurrent: tickmath.TM.GetTickAtSqrtRatio(price),
		TickData: td.NewTickData(spacing), Positions: map[string]*position.Info{},
	}
}

func zzSpec_Clone(p *Pool) *Pool {
	q := new(Pool)
	q.Token0, q.Token1, q.Fee = p.Token0, p.Token1, p.Fee
	q.SqrtRatioX96 = p.SqrtRatioX96.Clone()
	q.Liquidity = p.Liquidity.Clone()
	q.FeeGrowthGlobal0X128 = p.FeeGrowthGlobal0X128.Clone()
	q.FeeGrowthGlobal1X128 = p.FeeGrowthGlobal1X128.Clone()
	q.TickSpacing, q.TickCurrent = p.TickSpacing, p.TickCurrent
	q.TickData = p.TickData.Clone()
	q.Positions = map[string]*position.Info{}
	for k, i := range p.Positions {
		q.Positions[k] = &position.Info{
			Liquidity:                i.Liquidity.Clone(),
			FeeGrowthInside0LastX128: i.FeeGrowthInside0LastX128.Clone(),
			FeeGrowthInside1LastX128: i.FeeGrowthInside1LastX128.Clone(),
			TokensOwed0:              i.TokensOwed0.Clone(),
			TokensOwed1:              i.TokensOwed1.Clone(),
		}
	}
	return q
}

// the position on the range, after crediting its fees and adding delta
func zzTouch(p *Pool, lower, upper int, delta, inside0, inside1 *ui.Int) *position.Info {
	key := zzKey(lower, upper)
	i := p.Positions[key]
	if i == nil {
		i = &position.Info{new(ui.Int), new(ui.Int), new(ui.Int), new(ui.Int), new(ui.Int)}
		p.Positions[key] = i
	}
	position.ZZSpec_Update(i, delta, inside0, inside1)
	return i
}

// amounts that a change of liquidity on a range is worth
func zzAmounts(p *Pool, lower, upper int, delta *ui.Int) (*ui.Int, *ui.Int) {
	switch {
	case delta.IsZero():
		return new(ui.Int), new(ui.Int)
	case p.TickCurrent < lower:
		return sm.GetAmount0DeltaRounded(zzPrice(lower), zzPrice(upper), delta), new(ui.Int)
	case p.TickCurrent >= upper:
		return new(ui.Int), sm.GetAmount1DeltaRounded(zzPrice(lower), zzPrice(upper), delta)
	}
	return sm.GetAmount0DeltaRounded(p.SqrtRatioX96, zzPrice(upper), delta), sm.GetAmount1DeltaRounded(p.SqrtRatioX96, zzPrice(lower), delta)
}

func zzModify(p *Pool, lower, upper int, delta *ui.Int) (*position.Info, *ui.Int, *ui.Int) {
	zzCheckRange(lower, upper)
	goneLower, goneUpper := false, false
	if !delta.IsZero() {
		goneLower = p.TickData.UpdateTick(lower, p.TickCurrent, delta, p.FeeGrowthGlobal0X128, p.FeeGrowthGlobal1X128, false)
		goneUpper = p.TickData.UpdateTick(upper, p.TickCurrent, delta, p.FeeGrowthGlobal0X128, p.FeeGrowthGlobal1X128, true)
	}
	inside0, inside1 := p.TickData.GetFeeGrowthInside(lower, upper, p.TickCurrent, p.FeeGrowthGlobal0X128, p.FeeGrowthGlobal1X128)
	i := zzTouch(p, lower, upper, delta, inside0, inside1)
	if delta.Sign() < 0 {
		if goneLower {
			p.TickData.ClearTick(lower)
		}
		if goneUpper {
			p.TickData.ClearTick(upper)
		}
	}
	a0, a1 := zzAmounts(p, lower, upper, delta)
	if lower <= p.TickCurrent && p.TickCurrent < upper {
		p.Liquidity.Add(p.Liquidity, delta)
	}
	return i, a0, a1
}

func zzSpec_MintStrategy(p *Pool, lower, upper int, amount *ui.Int) (*ui.Int, *ui.Int) {
	if amount.Sign() <= 0 {
		panic("amount")
	}
	_, a0, a1 := zzModify(p, lower, upper, amount)
	return a0, a1
}

func zzSpec_BurnStrategy(p *Pool, lower, upper int, amount *ui.Int) (*ui.Int, *ui.Int) {
	i, a0, a1 := zzModify(p, lower, upper, new(ui.Int).Neg(amount))
	a0, a1 = new(ui.Int).Neg(a0), new(ui.Int).Neg(a1)
	i.TokensOwed0.Add(i.TokensOwed0, a0)
	i.TokensOwed1.Add(i.TokensOwed1, a1)
	return a0, a1
}

func zzSpec_CollectStrategy(p *Pool, lower, upper int) (*ui.Int, *ui.Int) {
	i := p.Positions[zzKey(lower, upper)]
	a0, a1 := i.TokensOwed0.Clone(), i.TokensOwed1.Clone()
	i.TokensOwed0.Clear()
	i.TokensOwed1.Clear()
	return a0, a1
}

func zzPlain(p *Pool, lower, upper int, delta *ui.Int) {
	zzCheckRange(lower, upper)
	goneLower := p.TickData.UpdateTick(lower, p.TickCurrent, delta, p.FeeGrowthGlobal0X128, p.FeeGrowthGlobal1X128, false)
	goneUpper := p.TickData.UpdateTick(upper, p.TickCurrent, delta, p.FeeGrowthGlobal0X128, p.FeeGrowthGlobal1X128, true)
	if goneLower {
		p.TickData.ClearTick(lower)
	}
	if goneUpper {
		p.TickData.ClearTick(upper)
	}
	if lower <= p.TickCurrent && p.TickCurrent < upper {
		p.Liquidity.Add(p.Liquidity, delta)
	}
}

func zzSpec_Mint(p *Pool, lower, upper int, amount *ui.Int) {
	if amount.Sign() <= 0 {
		panic("amount")
	}
	zzPlain(p, lower, upper, amount)
}

func zzSpec_Burn(p *Pool, lower, upper int, amount *ui.Int) {
	zzPlain(p, lower, upper, new(ui.Int).Neg(amount))
}

func zzSpec_Flash(p *Pool, amount0, amount1 *ui.Int) {
	if p.Liquidity.Sign() <= 0 {
		panic("liquidity")
	}
	rate, e6 := ui.NewInt(uint64(p.Fee)), ui.NewInt(1000000)
	fee0 := fm.ZZMulDivUp(amount0, rate, e6)
	fee1 := fm.ZZMulDivUp(amount1, rate, e6)
	p.FeeGrowthGlobal0X128.Add(p.FeeGrowthGlobal0X128, fm.ZZMulDiv(fee0, zzQ128(), p.Liquidity))
	p.FeeGrowthGlobal1X128.Add(p.FeeGrowthGlobal1X128, fm.ZZMulDiv(fee1, zzQ128(), p.Liquidity))
}

func zzSpec_ExactInputSwap(p *Pool, amount *ui.Int, token string, limit *ui.Int) (*ui.Int, *ui.Int) {
	return zzSwap(p, token == p.Token0, amount, limit)
}

func zzSpec_ExactOutputSwap(p *Pool, amount *ui.Int, token string, limit *ui.Int) (*ui.Int, *ui.Int) {
	return zzSwap(p, token == p.Token1, amount, limit)
}

func zzSwap(p *Pool, down bool, amount, limitIn *ui.Int) (*ui.Int, *ui.Int) {
	if amount.IsZero() {
		panic("amount")
	}
	limit := limitIn.Clone()
	if limit.IsZero() {
		if down {
			limit.Add(zzMinSqrt(), ui.NewInt(1))
		} else {
			limit.Sub(zzMaxSqrt(), ui.NewInt(1))
		}
	}
	if down {
		if !limit.Lt(p.SqrtRatioX96) || !limit.Gt(zzMinSqrt()) {
			panic("limit")
		}
	} else {
		if !limit.Gt(p.SqrtRatioX96) || !limit.Lt(zzMaxSqrt()) {
			panic("limit")
		}
	}
	exactIn := amount.Sign() >= 0
	left, other := amount.Clone(), new(ui.Int)
	price, tick, liquidity := p.SqrtRatioX96.Clone(), p.TickCurrent, p.Liquidity.Clone()
	growth := p.FeeGrowthGlobal1X128.Clone()
	if down {
		growth = p.FeeGrowthGlobal0X128.Clone()
	}
	for !left.IsZero() && !price.Eq(limit) {
		start := price.Clone()
		next, initialized := p.TickData.NextInitializedTickWithinOneWord(tick, down)
		if next < zzMinTick {
			next = zzMinTick
		}
		if next > zzMaxTick {
			next = zzMaxTick
		}
		nextPrice := zzPrice(next)
		target := nextPrice.Clone()
		if down && nextPrice.Lt(limit) || !down && nextPrice.Gt(limit) {
			target = limit.Clone()
		}
		newPrice, in, out, fee := swapmath.ComputeSwapStep(price, target, liquidity, left, p.Fee)
		if exactIn {
			left = new(ui.Int).Sub(left, new(ui.Int).Add(in, fee))
			other = new(ui.Int).Sub(other, out)
		} else {
			left = new(ui.Int).Add(left, out)
			other = new(ui.Int).Add(other, new(ui.Int).Add(in, fee))
		}
		if liquidity.Sign() > 0 {
			growth = new(ui.Int).Add(growth, fm.ZZMulDiv(fee, zzQ128(), liquidity))
		}
		price = newPrice
		if price.Eq(nextPrice) {
			if initialized {
				var net *ui.Int
				if down {
					net = p.TickData.Cross(next, growth, p.FeeGrowthGlobal1X128)
					liquidity = new(ui.Int).Sub(liquidity, net)
				} else {
					net = p.TickData.Cross(next, p.FeeGrowthGlobal0X128, growth)
					liquidity = new(ui.Int).Add(liquidity, net)
				}
			}
			tick = next
			if down {
				tick = next - 1
			}
		} else if !price.Eq(start) {
			tick = tickmath.TM.GetTickAtSqrtRatio(price)
		}
	}
	p.TickCurrent, p.Liquidity, p.SqrtRatioX96 = tick, liquidity, price
	if down {
		p.FeeGrowthGlobal0X128 = growth
	} else {
		p.FeeGrowthGlobal1X128 = growth
	}
	used := new(ui.Int).Sub(amount, left)
	if down == exactIn {
		return used, other
	}
	return other, used
}
