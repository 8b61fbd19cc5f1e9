# Behaviour-preserving edits outside pool and tickdata: (id, properties to run, [(file, old, new)]).
P, TD, SM, SP, FM, LA, PR, EX, TM, PO, MA, TR = ['lib/' + x for x in ('pool/pool.go', 'tickdata/tickdata.go', 'swapmath/swapmath.go', 'sqrtprice_math/sqrtprice_math.go', 'fullmath/fullmath.go', 'liquidity_amounts/liquidity_amounts.go', 'prices/prices.go', 'executor/executor.go', 'tickmath/tickmath.go', 'position/position.go')] + ['main.go', 'lib/transaction/transaction.go']
CO = 'lib/constants/constants.go'
R = []
def r(id, props, *edits):
    R.append((id, props, list(edits)))

# ---- swap step
r('sm-amount-helper', 'C02', (SM, '''	if zeroForOne {
		if !(max && exactIn) {
			amountIn = sqrtmath.GetAmount0Delta(sqrtRatioNextX96, sqrtRatioCurrentX96, liquidity, true)
		}
		if !(max && !exactIn) {
			amountOut = sqrtmath.GetAmount1Delta(sqrtRatioNextX96, sqrtRatioCurrentX96, liquidity, false)
		}
	} else {
		if !(max && exactIn) {
			amountIn = sqrtmath.GetAmount1Delta(sqrtRatioCurrentX96, sqrtRatioNextX96, liquidity, true)
		}
		if !(max && !exactIn) {
			amountOut = sqrtmath.GetAmount0Delta(sqrtRatioCurrentX96, sqrtRatioNextX96, liquidity, false)
		}
	}
''', '''	if !max || !exactIn {
		amountIn = inputBetween(sqrtRatioCurrentX96, sqrtRatioNextX96, liquidity, zeroForOne)
	}
	if !max || exactIn {
		amountOut = outputBetween(sqrtRatioCurrentX96, sqrtRatioNextX96, liquidity, zeroForOne)
	}
'''), (SM, '''func ComputeSwapStep''', '''func inputBetween(from, to, liquidity *ui.Int, zeroForOne bool) *ui.Int {
	if zeroForOne {
		return sqrtmath.GetAmount0Delta(to, from, liquidity, true)
	}
	return sqrtmath.GetAmount1Delta(from, to, liquidity, true)
}

func outputBetween(from, to, liquidity *ui.Int, zeroForOne bool) *ui.Int {
	if zeroForOne {
		return sqrtmath.GetAmount1Delta(to, from, liquidity, false)
	}
	return sqrtmath.GetAmount0Delta(from, to, liquidity, false)
}

func ComputeSwapStep'''))
r('sm-split', 'C02', (SM, '''	if exactIn && sqrtRatioNextX96.Cmp(sqrtRatioTargetX96) != 0 {
		// we didn't reach the target, so take the remainder of the maximum input as fee
		feeAmount = new(ui.Int).Sub(amountRemainingI, amountIn)
	} else {
		feeAmount = fm.MulDivRoundingUp(amountIn, ui.NewInt(uint64(feePips)), new(ui.Int).Sub(MaxFee, ui.NewInt(uint64(feePips))))
	}

	return
''', '''	return sqrtRatioNextX96, amountIn, amountOut, stepFee(amountRemainingI, amountIn, feePips, exactIn && !max)
'''), (SM, '''func ComputeSwapStep''', '''func stepFee(left, used *ui.Int, pips int, partial bool) *ui.Int {
	if !partial {
		p := ui.NewInt(uint64(pips))
		return fm.MulDivRoundingUp(used, p, new(ui.Int).Sub(MaxFee, p))
	}
	return new(ui.Int).Sub(left, used)
}

func ComputeSwapStep'''))
r('sm-lessfee', 'C02', (SM, '''		amountRemainingLessFee := new(ui.Int).Div(new(ui.Int).Mul(amountRemainingI, new(ui.Int).Sub(MaxFee, ui.NewInt(uint64(feePips)))), MaxFee)
''', '''		amountRemainingLessFee := ui.NewInt(uint64(1_000_000 - feePips))
		amountRemainingLessFee.Mul(amountRemainingLessFee, amountRemainingI).Div(amountRemainingLessFee, MaxFee)
'''))
r('sm-capped', 'C02', (SM, '''	if !exactIn && amountOut.Cmp(new(ui.Int).Neg(amountRemainingI)) > 0 {
		amountOut = amountRemainingINeg.Clone()
	}
''', '''	if !exactIn {
		if wanted := new(ui.Int).Neg(amountRemainingI); amountOut.Gt(wanted) {
			amountOut = wanted
		}
	}
'''))
r('sm-direction', 'C02', (SM, '''	zeroForOne := sqrtRatioCurrentX96.Cmp(sqrtRatioTargetX96) >= 0

	exactIn := amountRemainingI.Sign() >= 0
''', '''	zeroForOne := !sqrtRatioCurrentX96.Lt(sqrtRatioTargetX96)

	exactIn := amountRemainingI.Sign() != -1
'''))

# ---- price movement
r('sp-one-rounding', 'C03', (SP, '''	if roundUp {
		return fm.MulDivRoundingUp(liquidity, new(ui.Int).Sub(sqrtRatioBX96, sqrtRatioAX96), cons.Q96)
	}
	ratio_dif := new(ui.Int).Sub(sqrtRatioBX96, sqrtRatioAX96)
	res := fm.MulDiv(liquidity, ratio_dif, cons.Q96)

	return res
''', '''	width := new(ui.Int).Sub(sqrtRatioBX96, sqrtRatioAX96)
	mulDiv := fm.MulDiv
	if roundUp {
		mulDiv = fm.MulDivRoundingUp
	}
	return mulDiv(liquidity, width, cons.Q96)
'''))
r('sp-sort-helper', 'C03', (SP, '''	if sqrtRatioAX96.Cmp(sqrtRatioBX96) > 0 {
		sqrtRatioAX96, sqrtRatioBX96 = sqrtRatioBX96, sqrtRatioAX96
	}

	numerator1''', '''	sqrtRatioAX96, sqrtRatioBX96 = ascending(sqrtRatioAX96, sqrtRatioBX96)

	numerator1'''), (SP, '''	if sqrtRatioAX96.Cmp(sqrtRatioBX96) > 0 {
		sqrtRatioAX96, sqrtRatioBX96 = sqrtRatioBX96, sqrtRatioAX96
	}

	if roundUp''', '''	sqrtRatioAX96, sqrtRatioBX96 = ascending(sqrtRatioAX96, sqrtRatioBX96)

	if roundUp'''), (SP, '''func GetAmount0Delta(''', '''func ascending(a, b *ui.Int) (*ui.Int, *ui.Int) {
	if b.Lt(a) {
		return b, a
	}
	return a, b
}

func GetAmount0Delta('''))
r('sp-guard-helper', 'C03', (SP, '''	invariant.Invariant(sqrtPX96.Sign() == 1, "sqrtPX96 must be positive")
	invariant.Invariant(liquidity.Sign() == 1, "liquidity must be positive")
	if zeroForOne {
		return getNextSqrtPriceFromAmount0RoundingUp(sqrtPX96, liquidity, amountIn, true)
	}
''', '''	mustBePositive(sqrtPX96, liquidity)
	if zeroForOne {
		return getNextSqrtPriceFromAmount0RoundingUp(sqrtPX96, liquidity, amountIn, true)
	}
'''), (SP, '''	invariant.Invariant(sqrtPX96.Sign() == 1, "sqrtPX96 must be positive")
	invariant.Invariant(liquidity.Sign() == 1, "liquidity must be positive")

	if''', '''	mustBePositive(sqrtPX96, liquidity)
	if'''), (SP, '''func GetAmount0Delta(''', '''func mustBePositive(xs ...*ui.Int) {
	for _, x := range xs {
		invariant.Invariant(x.Sign() > 0, "must be positive")
	}
}

func GetAmount0Delta('''))
r('sp-nomask', 'C03', (SP, '''	product := new(ui.Int).Mul(x, y)
	return new(ui.Int).And(product, cons.MaxUint256)
''', '''	return new(ui.Int).Mul(x, y)
'''))
r('sp-early', 'C03', (SP, '''		if new(ui.Int).Div(product, amount).Eq(sqrtPX96) {
			denominator := addIn256(numerator1, product)
			if denominator.Cmp(numerator1) >= 0 {
				ans := fm.MulDivRoundingUp(numerator1, sqrtPX96, denominator)
				return ans
			}
		}
''', '''		denominator := addIn256(numerator1, product)
		exact := new(ui.Int).Div(product, amount).Eq(sqrtPX96)
		if exact && !denominator.Lt(numerator1) {
			return fm.MulDivRoundingUp(numerator1, sqrtPX96, denominator)
		}
'''))
r('sp-signed-helper', 'C03', (SP, '''	if liquidity.Sign() == -1 {
		return new(ui.Int).Neg(GetAmount0Delta(sqrtRatioAX96, sqrtRatioBX96, new(ui.Int).Neg(liquidity), false))
	} else {
		return GetAmount0Delta(sqrtRatioAX96, sqrtRatioBX96, liquidity, true)
	}
''', '''	return rounded(GetAmount0Delta, sqrtRatioAX96, sqrtRatioBX96, liquidity)
'''), (SP, '''	if liquidity.Sign() == -1 {
		return new(ui.Int).Neg(GetAmount1Delta(sqrtRatioAX96, sqrtRatioBX96, new(ui.Int).Neg(liquidity), false))
	} else {
		return GetAmount1Delta(sqrtRatioAX96, sqrtRatioBX96, liquidity, true)
	}
''', '''	return rounded(GetAmount1Delta, sqrtRatioAX96, sqrtRatioBX96, liquidity)
'''), (SP, '''func GetAmount0DeltaRounded(''', '''func rounded(f func(a, b, l *ui.Int, up bool) *ui.Int, a, b, l *ui.Int) *ui.Int {
	if l.Sign() >= 0 {
		return f(a, b, l, true)
	}
	res := f(a, b, new(ui.Int).Neg(l), false)
	return res.Neg(res)
}

func GetAmount0DeltaRounded('''))
r('sp-var160', 'C03', (SP, '''		if amount.Cmp(MaxUint160) <= 0 {
			quotient = new(ui.Int).Div(new(ui.Int).Lsh(amount, 96), liquidity)
		} else {
			quotient = new(ui.Int).Div(new(ui.Int).Mul(amount, cons.Q96), liquidity)
		}
		return new(ui.Int).Add(sqrtPX96, quotient)
''', '''		quotient = new(ui.Int).Lsh(amount, 96)
		quotient.Div(quotient, liquidity)
		return quotient.Add(quotient, sqrtPX96)
'''))

# ---- full precision
r('fm-helper', 'C04,C03,C02', (FM, '''	product := ui.Umul(a, b)
	var q [5]uint64
	quotient := q[:]
	rem := ui.Udivrem(quotient, product[:], denominator)
	result := (*ui.Int)(quotient[0:4])
	if !rem.IsZero() {
		result.Add(result, cons.One)
	}
	return result
''', '''	result, rem := mulDivRem(a, b, denominator)
	if !rem.IsZero() {
		result.AddUint64(result, 1)
	}
	return result
'''), (FM, '''	product := ui.Umul(a, b)
	var q [5]uint64
	quotient := q[:]
	ui.Udivrem(quotient, product[:], denominator)
	result := (*ui.Int)(quotient[0:4])
	return result
''', '''	result, _ := mulDivRem(a, b, denominator)
	return result
'''), (FM, '''func MulDivRoundingUp''', '''func mulDivRem(a, b, denominator *ui.Int) (*ui.Int, ui.Int) {
	product := ui.Umul(a, b)
	var q [5]uint64
	rem := ui.Udivrem(q[:], product[:], denominator)
	return &ui.Int{q[0], q[1], q[2], q[3]}, rem
}

func MulDivRoundingUp'''), (FM, '	cons "uniswap-simulator/lib/constants"\n', ''))
r('fm-delegate', 'C04', (FM, '''	product := ui.Umul(a, b)
	var q [5]uint64
	quotient := q[:]
	ui.Udivrem(quotient, product[:], denominator)
	result := (*ui.Int)(quotient[0:4])
	return result
''', '''	product := ui.Umul(a, b)
	quotient := make([]uint64, 5)
	ui.Udivrem(quotient, product[:], denominator)
	result := new(ui.Int)
	copy(result[:], quotient)
	return result
'''))
r('fm-zero-first', 'C04', (FM, '''	if a.IsZero() || b.IsZero() {
		return ui.NewInt(0)
	}
	product := ui.Umul(a, b)
	var q [5]uint64
	quotient := q[:]
	ui.Udivrem(''', '''	if b.IsZero() {
		return new(ui.Int)
	} else if a.IsZero() {
		return new(ui.Int)
	}
	product := ui.Umul(b, a)
	var q [5]uint64
	quotient := q[:]
	ui.Udivrem('''))
r('fm-short', 'C04', (FM, '''	product := ui.Umul(a, b)
	var q [5]uint64
	quotient := q[:]
	ui.Udivrem(quotient, product[:], denominator)
	result := (*ui.Int)(quotient[0:4])
	return result
''', '''	// small products need no long division
	if p, over := new(ui.Int).MulOverflow(a, b); !over && !denominator.IsZero() {
		return p.Div(p, denominator)
	}
	product := ui.Umul(a, b)
	var q [5]uint64
	quotient := q[:]
	ui.Udivrem(quotient, product[:], denominator)
	result := (*ui.Int)(quotient[0:4])
	return result
'''))

# ---- liquidity
r('la-switch', 'C19', (LA, '''	if sqrtRatioX96.Cmp(sqrtRatioAX96) <= 0 {
		liquidity = getLiquidityForAmount0(sqrtRatioAX96, sqrtRatioBX96, amount0)
	} else if sqrtRatioX96.Cmp(sqrtRatioBX96) < 0 {
		liquidity0 := getLiquidityForAmount0(sqrtRatioX96, sqrtRatioBX96, amount0)
		liquidity1 := getLiquidityForAmount1(sqrtRatioAX96, sqrtRatioX96, amount1)

		if liquidity0.Cmp(liquidity1) < 0 {
			liquidity = liquidity0
		} else {
			liquidity = liquidity1
		}
	} else {
		liquidity = getLiquidityForAmount1(sqrtRatioAX96, sqrtRatioBX96, amount1)
	}
	return liquidity
''', '''	switch {
	case !sqrtRatioX96.Gt(sqrtRatioAX96):
		return getLiquidityForAmount0(sqrtRatioAX96, sqrtRatioBX96, amount0)
	case !sqrtRatioX96.Lt(sqrtRatioBX96):
		return getLiquidityForAmount1(sqrtRatioAX96, sqrtRatioBX96, amount1)
	}
	liquidity1 := getLiquidityForAmount1(sqrtRatioAX96, sqrtRatioX96, amount1)
	liquidity = getLiquidityForAmount0(sqrtRatioX96, sqrtRatioBX96, amount0)
	if liquidity1.Lt(liquidity) {
		liquidity = liquidity1
	}
	return
'''))
r('la-inline', 'C19', (LA, '''	temp1 := new(ui.Int).Lsh(liquidity, 96)
	temp2 := new(ui.Int).Sub(sqrtRatioBX96, sqrtRatioAX96)
	temp3 := fullmath.MulDiv(temp1, temp2, sqrtRatioBX96)
	return new(ui.Int).Div(temp3, sqrtRatioAX96)
''', '''	amount := new(ui.Int).Sub(sqrtRatioBX96, sqrtRatioAX96)
	amount = fullmath.MulDiv(amount, new(ui.Int).Lsh(liquidity, 96), sqrtRatioBX96)
	return amount.Div(amount, sqrtRatioAX96)
'''))
r('la-clamp', 'C19', (LA, '''	amount0, amount1 := new(ui.Int), new(ui.Int)
	if sqrtRatioX96.Cmp(sqrtRatioAX96) <= 0 {
		amount0 = getAmount0ForLiquidity(sqrtRatioAX96, sqrtRatioBX96, liquidity)
	} else if sqrtRatioX96.Cmp(sqrtRatioBX96) < 0 {
		amount0 = getAmount0ForLiquidity(sqrtRatioX96, sqrtRatioBX96, liquidity)
		amount1 = getAmount1ForLiquidity(sqrtRatioAX96, sqrtRatioX96, liquidity)
	} else {
		amount1 = getAmount1ForLiquidity(sqrtRatioAX96, sqrtRatioBX96, liquidity)
	}
	return amount0, amount1
''', '''	amount0, amount1 := new(ui.Int), new(ui.Int)
	if sqrtRatioX96.Lt(sqrtRatioBX96) {
		from := sqrtRatioX96
		if !from.Gt(sqrtRatioAX96) {
			from = sqrtRatioAX96
		}
		amount0 = getAmount0ForLiquidity(from, sqrtRatioBX96, liquidity)
	}
	if sqrtRatioX96.Gt(sqrtRatioAX96) {
		to := sqrtRatioBX96
		if sqrtRatioX96.Lt(to) {
			to = sqrtRatioX96
		}
		amount1 = getAmount1ForLiquidity(sqrtRatioAX96, to, liquidity)
	}
	return amount0, amount1
'''))

# ---- price history
r('pr-new-range', 'C20', (PR, '''	for i := 0; i < len; i++ {
		prices[i] = ui.NewInt(0)
	}
	return &Prices{prices, 0, len}
''', '''	for i := range prices {
		prices[i] = new(ui.Int)
	}
	return &Prices{prices: prices, length: len}
'''))
r('pr-new-append', 'C20', (PR, '''	prices := make([]*ui.Int, len)
	for i := 0; i < len; i++ {
		prices[i] = ui.NewInt(0)
	}
''', '''	prices := make([]*ui.Int, 0, len)
	for i := 0; i < len; i++ {
		prices = append(prices, new(ui.Int))
	}
'''))
r('pr-new-down', 'C20', (PR, '''	for i := 0; i < len; i++ {
		prices[i] = ui.NewInt(0)
	}
''', '''	for i := len - 1; i >= 0; i-- {
		prices[i] = ui.NewInt(0)
	}
'''))
r('pr-ring-if', 'C20', (PR, '''	p.index = (p.index + 1) % p.length
''', '''	p.index++
	if p.index == p.length {
		p.index = 0
	}
'''))
r('pr-avg-index', 'C20', (PR, '''	for _, price := range p.prices {
		sum.Add(sum, price)
	}
	length''', '''	for i := 0; i < len(p.prices); i++ {
		sum = new(ui.Int).Add(sum, p.prices[i])
	}
	length'''))
r('pr-var-helper', 'C20', (PR, '''	avg := p.Average()
	sum := big.NewInt(0)
	for _, price := range p.prices {
		diff := new(ui.Int).Sub(price, avg)
		// IDK why its needed going to Square it later anyway
		diff.Abs(diff)
		diffBig := diff.ToBig()
		invariant.Invariant(diffBig.Sign() >= 0, "Volatility: diffBig is not negative")
		diff2 := new(big.Int).Mul(diffBig, diffBig)
		sum.Add(sum, diff2)
	}
''', '''	sum := squaredDeviations(p.prices, p.Average())
'''), (PR, '''// Volatility o''', '''func squaredDeviations(prices []*ui.Int, avg *ui.Int) *big.Int {
	sum := new(big.Int)
	sq := new(big.Int)
	for _, price := range prices {
		d := new(ui.Int).Abs(new(ui.Int).Sub(price, avg)).ToBig()
		sum.Add(sum, sq.Mul(d, d))
	}
	return sum
}

// Volatility o'''))
r('pr-dropcheck', 'C20', (PR, '''	shifted := new(ui.Int).Rsh(priceSquareX192, 230)
	invariant.Invariant(shifted.IsZero(), "Price square should not overflow")
''', '''	invariant.Invariant(priceSquareX192.BitLen() <= 230, "Price square should not overflow")
'''))

# ---- position
r('po-update-inplace', 'C09,C12', (PO, '''	LiquidityNext := new(ui.Int).Add(i.Liquidity, LiquidityDelta)
	temp0 := new(ui.Int).Sub(FeeGrowthInside0X128, i.FeeGrowthInside0LastX128)
	temp1 := new(ui.Int).Sub(FeeGrowthInside1X128, i.FeeGrowthInside1LastX128)
	TokensOwed0 := fullmath.MulDiv(temp0, i.Liquidity, cons.Q128)
	TokensOwed1 := fullmath.MulDiv(temp1, i.Liquidity, cons.Q128)
	i.Liquidity = LiquidityNext
	i.FeeGrowthInside0LastX128 = FeeGrowthInside0X128
	i.FeeGrowthInside1LastX128 = FeeGrowthInside1X128
	i.TokensOwed0.Add(i.TokensOwed0, TokensOwed0)
	i.TokensOwed1.Add(i.TokensOwed1, TokensOwed1)
''', '''	i.TokensOwed0 = new(ui.Int).Add(i.TokensOwed0, i.earned(FeeGrowthInside0X128, i.FeeGrowthInside0LastX128))
	i.TokensOwed1 = new(ui.Int).Add(i.TokensOwed1, i.earned(FeeGrowthInside1X128, i.FeeGrowthInside1LastX128))
	i.FeeGrowthInside0LastX128 = FeeGrowthInside0X128
	i.FeeGrowthInside1LastX128 = FeeGrowthInside1X128
	i.Liquidity = new(ui.Int).Add(LiquidityDelta, i.Liquidity)
'''), (PO, '''func NewPosition''', '''func (i *Info) earned(now, last *ui.Int) *ui.Int {
	return fullmath.MulDiv(new(ui.Int).Sub(now, last), i.Liquidity, cons.Q128)
}

func NewPosition'''))
r('po-update-copy', 'C09,C12', (PO, '''	i.FeeGrowthInside0LastX128 = FeeGrowthInside0X128
	i.FeeGrowthInside1LastX128 = FeeGrowthInside1X128
''', '''	i.FeeGrowthInside0LastX128.Set(FeeGrowthInside0X128)
	i.FeeGrowthInside1LastX128.Set(FeeGrowthInside1X128)
'''))
r('po-clone-new', 'C12', (PO, '''	return &Info{
		Liquidity:                i.Liquidity.Clone(),
		FeeGrowthInside0LastX128: i.FeeGrowthInside0LastX128.Clone(),
		FeeGrowthInside1LastX128: i.FeeGrowthInside1LastX128.Clone(),
		TokensOwed0:              i.TokensOwed0.Clone(),
		TokensOwed1:              i.TokensOwed1.Clone(),
	}
''', '''	c := NewPosition()
	for _, f := range [...][2]*ui.Int{
		{c.Liquidity, i.Liquidity},
		{c.FeeGrowthInside0LastX128, i.FeeGrowthInside0LastX128},
		{c.FeeGrowthInside1LastX128, i.FeeGrowthInside1LastX128},
		{c.TokensOwed0, i.TokensOwed0},
		{c.TokensOwed1, i.TokensOwed1},
	} {
		f[0].Set(f[1])
	}
	return c
'''))
r('po-clone-star', 'C12', (PO, '''	return &Info{
		Liquidity:                i.Liquidity.Clone(),
		FeeGrowthInside0LastX128: i.FeeGrowthInside0LastX128.Clone(),
		FeeGrowthInside1LastX128: i.FeeGrowthInside1LastX128.Clone(),
		TokensOwed0:              i.TokensOwed0.Clone(),
		TokensOwed1:              i.TokensOwed1.Clone(),
	}
''', '''	c := *i
	for _, f := range []**ui.Int{&c.Liquidity, &c.FeeGrowthInside0LastX128, &c.FeeGrowthInside1LastX128, &c.TokensOwed0, &c.TokensOwed1} {
		*f = (*f).Clone()
	}
	return &c
'''))

# ---- executor
VAL = '''			x96 := strategy.GetPool().SqrtRatioX96
			priceSquareX192 := new(ui.Int).Mul(x96, x96)
			amount1to0 := fullmath.MulDiv(amount1, cons.Q192, priceSquareX192)
			amountUSD := new(ui.Int).Add(amount1to0, amount0)
			e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, amountUSD)
'''
r('ex-value-helper', 'C21,C22', (EX, '''			amount0, amount1 := strategy.Init()
			// Not Precise
''' + VAL, '''			e.record(strategy.Init())
'''), (EX, '''			amount0, amount1 := strategy.GetAmounts()
''' + VAL, '''			e.record(strategy.GetAmounts())
'''), (EX, '''	amount0, amount1 := strategy.BurnAll()
''' + VAL.replace('\t\t\t', '\t') + '''
}
''', '''	e.record(strategy.BurnAll())
}

// record values both amounts in token 0.
func (e *Execution) record(amount0, amount1 *ui.Int) {
	price := e.Strategy.GetPool().SqrtRatioX96
	square := new(ui.Int).Mul(price, price)
	e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, new(ui.Int).Add(fullmath.MulDiv(amount1, cons.Q192, square), amount0))
}
'''))
r('ex-apply-helper', 'C21', (EX, '''		switch trans.Type {
		case "Mint":
			pool.Mint(trans.TickLower, trans.TickUpper, trans.Amount)
		case "Burn":
			pool.Burn(trans.TickLower, trans.TickUpper, trans.Amount)
		case "Swap":
			if trans.Amount0.Sign() > 0 {
				pool.ExactInputSwap(trans.Amount0, pool.Token0, cons.Zero)
			} else if trans.Amount1.Sign() > 0 {
				pool.ExactInputSwap(trans.Amount1, pool.Token1, cons.Zero)
			}
		case "Flash":
			pool.Flash(trans.Amount0, trans.Amount1)
		}
	}
''', '''		apply(pool, trans)
	}
'''), (EX, '''func (e *Execution) Run() {''', '''func apply(p *pool.Pool, t ent.Transaction) {
	if t.Type == "Flash" {
		p.Flash(t.Amount0, t.Amount1)
		return
	}
	if t.Type == "Swap" {
		switch {
		case t.Amount0.Sign() == 1:
			p.ExactInputSwap(t.Amount0, p.Token0, cons.Zero)
		case t.Amount1.Sign() == 1:
			p.ExactInputSwap(t.Amount1, p.Token1, cons.Zero)
		}
		return
	}
	change := map[string]func(int, int, *ui.Int){"Mint": nil}
	_ = change
	switch t.Type {
	case "Burn":
		p.Burn(t.TickLower, t.TickUpper, t.Amount)
	case "Mint":
		p.Mint(t.TickLower, t.TickUpper, t.Amount)
	}
}

func (e *Execution) Run() {'''), (EX, '	strat "uniswap', '	"uniswap-simulator/lib/pool"\n	strat "uniswap'))
r('ex-index-loop', 'C21,C22', (EX, '''	for _, trans := range transactions {

		if trans.Timestamp > e.EndTime {
			break
		}
''', '''	for i := 0; i < len(transactions) && transactions[i].Timestamp <= e.EndTime; i++ {
		trans := transactions[i]
'''))
r('ex-index-ptr', 'C21,C22', (EX, '''	for _, trans := range transactions {

		if''', '''	for i := range transactions {
		trans := &transactions[i]
		if'''))
r('ex-create-defer', 'C22', (EX, '''	maxTime := transactions[len(transactions)-1].Timestamp
	length := (maxTime - startTime) / updateInterval
	snapshots := make([]*ui.Int, 0, length)

	return &Execution{''', '''	last := transactions[len(transactions)-1]
	snapshots := make([]*ui.Int, 0, (last.Timestamp-startTime)/updateInterval)
	e := &Execution{'''), (EX, '''		AmountUSDSnapshots:      snapshots,
	}

}''', '''	}
	e.AmountUSDSnapshots = snapshots
	return e
}'''))

# ---- prices of ticks
import re
def tick_table(src):
    ms = re.findall(r'	if \(absTick & (0x[0-9a-f]+)\) != 0 \{\n\t\tratio = mulShift\(ratio, "(0x[0-9a-f]+)"\)\n\t\}\n', src)
    return ms
src = open('/repo/' + TM).read()
ms = tick_table(src)
chain = ''.join('	if (absTick & %s) != 0 {\n\t\tratio = mulShift(ratio, "%s")\n\t}\n' % m for m in ms)
assert chain in src and len(ms) == 19
r('tm-table', 'C05', (TM, chain, '''	for i, factor := range factors {
		if absTick&(2<<i) != 0 {
			ratio = mulShift(ratio, factor)
		}
	}
'''), (TM, '''func mulShift(''', 'var factors = [...]string{\n' + ''.join('\t"%s",\n' % m[1] for m in ms) + '''}

func mulShift('''))
r('tm-steps', 'C05', (TM, chain, '''	for _, s := range []struct {
		bit    int
		factor string
	}{
''' + ''.join('\t\t{%s, "%s"},\n' % m for m in ms) + '''	} {
		if absTick&s.bit == 0 {
			continue
		}
		ratio = mulShift(ratio, s.factor)
	}
'''))
r('tm-roundup', 'C05', (TM, '''	if new(ui.Int).SMod(ratio, Q32).Sign() > 0 {
		return new(ui.Int).Add(new(ui.Int).Div(ratio, Q32), cons.One)
	} else {
		return new(ui.Int).Div(ratio, Q32)
	}
''', '''	res := new(ui.Int).Rsh(ratio, 32)
	if !new(ui.Int).Mod(ratio, Q32).IsZero() {
		res.Add(res, cons.One)
	}
	return res
'''))
r('tm-floor-int', 'C05,C06', (TM, '''	x := float64(ix)
	unit := float64(iunit)
	return int(math.Floor(x/unit) * unit)
''', '''	q := ix / iunit
	if ix%iunit != 0 && (ix < 0) != (iunit < 0) {
		q--
	}
	return q * iunit
'''))
r('tm-ceil-helper', 'C05,C06', (TM, '''	x := float64(ix)
	unit := float64(iunit)
	return int(math.Ceil(x/unit) * unit)
''', '''	return snap(math.Ceil, ix, iunit)
'''), (TM, '''	x := float64(ix)
	unit := float64(iunit)
	return int(math.Round(x/unit) * unit)
''', '''	return snap(math.Round, ix, iunit)
'''), (TM, '''func Ceil(''', '''func snap(f func(float64) float64, x, unit int) int {
	return int(f(float64(x)/float64(unit)) * float64(unit))
}

func Ceil('''))
r('tm-search', 'C05', (TM, '''	l := 0
	r := TotalTicks - 1
	var mid int
	for l < r {
		// Ticks never overflow, so we can use the mid as an index.
		mid = (l + r + 1) / 2
		if t := t.ticks[mid]; t.Cmp(sqrtRatioX96) > 0 {
			r = mid - 1
		} else {
			l = mid
		}
	}
	return l + MinTick
''', '''	lo, hi := 0, TotalTicks
	for lo < hi {
		mid := lo + (hi-lo)/2
		if t.ticks[mid].Gt(sqrtRatioX96) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return lo - 1 + MinTick
'''))
r('tm-sortsearch', 'C05', (TM, '''	l := 0
	r := TotalTicks - 1
	var mid int
	for l < r {
		// Ticks never overflow, so we can use the mid as an index.
		mid = (l + r + 1) / 2
		if t := t.ticks[mid]; t.Cmp(sqrtRatioX96) > 0 {
			r = mid - 1
		} else {
			l = mid
		}
	}
	return l + MinTick
''', '''	above := sort.Search(TotalTicks, func(i int) bool {
		return t.ticks[i].Cmp(sqrtRatioX96) > 0
	})
	return above - 1 + MinTick
'''), (TM, '	"math/big"\n', '	"math/big"\n	"sort"\n'))
r('tm-clone', 'C05', (TM, '''	return new(ui.Int).Set(t.ticks[tick+MaxTick])
''', '''	return t.ticks[tick-MinTick].Clone()
'''))
r('tm-init-range', 'C05', (TM, '''	for i := 0; i < TotalTicks; i++ {
		t.ticks[i] = getSqrtRatioAtTick(i + MinTick)
	}
''', '''	for tick := MinTick; tick <= MaxTick; tick++ {
		t.ticks[tick-MinTick] = getSqrtRatioAtTick(tick)
	}
'''))
r('co-spaces', 'C10,C11,C01,C09', (CO, '''var TickSpaces = map[int]int{
	500:   10,
	3000:  60,
	10000: 200,
}
''', '''var TickSpaces = map[int]int{
	10000: 200,
	500:   10,
	3000:  60,
}
'''))
r('co-q', 'C03,C04,C09,C19', (CO, '''	Q128, _ = ui.FromHex("0x100000000000000000000000000000000")
	Q96     = new(ui.Int).Exp(ui.NewInt(2), ui.NewInt(96))
	Q192    = new(ui.Int).Exp(Q96, ui.NewInt(2))
''', '''	Q128 = new(ui.Int).Lsh(ui.NewInt(1), 128)
	Q96  = new(ui.Int).Lsh(ui.NewInt(1), 96)
	Q192 = new(ui.Int).Mul(Q96, Q96)
'''))

# ---- report
r('ma-floats', 'C23', (MA, '''		sIMinus1 := prices[i-1].ToBig()
		sI := prices[i].ToBig()
		sIMinus1F, _ := new(big.Float).SetInt(sIMinus1).Float64()
		sIF, _ := new(big.Float).SetInt(sI).Float64()
		ret := math.Log(sIF / sIMinus1F)
		returns = append(returns, ret)
''', '''		returns = append(returns, math.Log(toFloat(prices[i])/toFloat(prices[i-1])))
'''), (MA, '''func getReturns(''', '''func toFloat(x *ui.Int) float64 {
	f, _ := new(big.Float).SetInt(x.ToBig()).Float64()
	return f
}

func getReturns('''))
r('ma-returns-make', 'C23', (MA, '''	returns := make([]float64, 0, len(prices))
	for i := 1; i < len(prices); i++ {''', '''	var returns []float64
	for i := 1; i < len(prices); i++ {'''))
r('ma-returns-prev', 'C23', (MA, '''	for i := 1; i < len(prices); i++ {
		sIMinus1 := prices[i-1].ToBig()
		sI := prices[i].ToBig()
		sIMinus1F, _ := new(big.Float).SetInt(sIMinus1).Float64()
		sIF, _ := new(big.Float).SetInt(sI).Float64()
		ret := math.Log(sIF / sIMinus1F)
		returns = append(returns, ret)
	}
''', '''	var last float64
	for i, price := range prices {
		now, _ := new(big.Float).SetInt(price.ToBig()).Float64()
		if i > 0 {
			returns = append(returns, math.Log(now/last))
		}
		last = now
	}
'''))
r('ma-drawdown-one', 'C23', (MA, '''	pricesFloat := make([]float64, 0, len(prices))
	for _, price := range prices {
		floatNumber, _ := new(big.Float).SetInt(price.ToBig()).Float64()
		pricesFloat = append(pricesFloat, floatNumber)
	}
	maxPrice := pricesFloat[0]
	maxDrawdown := 0.0
	for _, price := range pricesFloat {
		maxPrice = math.Max(maxPrice, price)
''', '''	maxPrice, _ := new(big.Float).SetInt(prices[0].ToBig()).Float64()
	maxDrawdown := 0.0
	for i := range prices {
		price, _ := new(big.Float).SetInt(prices[i].ToBig()).Float64()
		maxPrice = math.Max(maxPrice, price)
'''))
r('ma-std-one-loop', 'C23', (MA, '''	sum1 := 0.0
	for _, r := range returns {
		sum1 += r * r
	}
	sum1 = sum1 / float64(n-1)
	sum2 := 0.0
	for _, r := range returns {
		sum2 += r
	}
''', '''	sum1, sum2 := 0.0, 0.0
	for _, r := range returns {
		sum1 += r * r
		sum2 += r
	}
	sum1 /= float64(n - 1)
'''))
r('ma-std-max', 'C23', (MA, '''	variance := sum1 - sum2
	if variance < 0 {
		// rounding errors of returns that are all the same
		variance = 0
	}
	standardDeviation := math.Sqrt(variance)

	return standardDeviation
''', '''	if sum1 < sum2 {
		return 0
	}
	return math.Sqrt(sum1 - sum2)
'''))
r('ma-down-filter', 'C23', (MA, '''	for _, r := range returns {
		if r < 0 {
			sum += r * r
		}
	}
	n := len(returns)
	sum = sum / float64(n)
	downwardDeviation := math.Sqrt(sum)
	return downwardDeviation
''', '''	for i := range returns {
		if returns[i] >= 0 {
			continue
		}
		sum += returns[i] * returns[i]
	}
	return math.Sqrt(sum / float64(len(returns)))
'''))
r('ma-append-steps', 'C24', (MA, '''	for i := 0; i < len(execution.AmountUSDSnapshots); i++ {
		pricesHourly = append(pricesHourly, execution.AmountUSDSnapshots[i].Clone())
		if i%24 == 0 {
			pricesDaily = append(pricesDaily, execution.AmountUSDSnapshots[i].Clone())
		}
		if i%(24*7) == 0 {
			pricesWeekly = append(pricesWeekly, execution.AmountUSDSnapshots[i].Clone())
		}
	}
''', '''	for hour, value := range execution.AmountUSDSnapshots {
		pricesHourly = append(pricesHourly, value.Clone())
		if hour%24 != 0 {
			continue
		}
		pricesDaily = append(pricesDaily, value.Clone())
		if (hour/24)%7 == 0 {
			pricesWeekly = append(pricesWeekly, value.Clone())
		}
	}
'''))
r('ma-append-every', 'C24', (MA, '''	pricesHourly := make([]*ui.Int, 0, len(execution.AmountUSDSnapshots))
	pricesDaily := make([]*ui.Int, 0, len(execution.AmountUSDSnapshots)/24)
	pricesWeekly := make([]*ui.Int, 0, len(execution.AmountUSDSnapshots)/24/7)
	for i := 0; i < len(execution.AmountUSDSnapshots); i++ {
		pricesHourly = append(pricesHourly, execution.AmountUSDSnapshots[i].Clone())
		if i%24 == 0 {
			pricesDaily = append(pricesDaily, execution.AmountUSDSnapshots[i].Clone())
		}
		if i%(24*7) == 0 {
			pricesWeekly = append(pricesWeekly, execution.AmountUSDSnapshots[i].Clone())
		}
	}
''', '''	pricesHourly := everyNth(execution.AmountUSDSnapshots, 1)
	pricesDaily := everyNth(execution.AmountUSDSnapshots, 24)
	pricesWeekly := everyNth(execution.AmountUSDSnapshots, 24*7)
'''), (MA, '''func createResult(''', '''func everyNth(values []*ui.Int, n int) []*ui.Int {
	res := make([]*ui.Int, 0, len(values)/n+1)
	for i, v := range values {
		if i%n == 0 {
			res = append(res, v.Clone())
		}
	}
	return res
}

func createResult('''))
r('ma-append-share', 'C24', (MA, '''		pricesHourly = append(pricesHourly, execution.AmountUSDSnapshots[i].Clone())
''', '''		pricesHourly = append(pricesHourly, execution.AmountUSDSnapshots[i])
'''))
r('ma-roi', 'C24', (MA, '''	amountEndFloat, _ := new(big.Float).SetInt(amountUSDEnd.ToBig()).Float64()
	amountStartFloat, _ := new(big.Float).SetInt(execution.AmountUSDSnapshots[0].ToBig()).Float64()
	amountDiff := amountEndFloat - amountStartFloat
	roi := amountDiff / amountStartFloat

	r := result.RunResult{''', '''	first, _ := new(big.Float).SetInt(execution.AmountUSDSnapshots[0].ToBig()).Float64()
	last, _ := new(big.Float).SetInt(amountUSDEnd.ToBig()).Float64()
	roi := (last - first) / first

	r := result.RunResult{'''))
r('ma-read', 'C26', (MA, '''	file, err := os.Open(filepath)
	check(err)
	value, err := ioutil.ReadAll(file)
	check(err)
	var transactionsInput []ent.TransactionInput
	err = json.Unmarshal([]byte(value), &transactionsInput)
	check(err)
	var transactions []ent.Transaction
	for _, transIn := range transactionsInput {
''', '''	value, err := os.ReadFile(filepath)
	check(err)
	var transactionsInput []ent.TransactionInput
	check(json.Unmarshal(value, &transactionsInput))
	var transactions []ent.Transaction
	for _, transIn := range transactionsInput {
'''), (MA, '	"io/ioutil"\n', ''))
r('ma-trans-named', 'C26', (MA, '''		trans := ent.Transaction{
			transIn.Type,
			stringToUint256(transIn.Amount),
			stringToUint256(transIn.Amount0),
			stringToUint256(transIn.Amount1),
			transIn.ID,
			stringToUint256(transIn.SqrtPriceX96),
			transIn.Tick,
			transIn.TickLower,
			transIn.TickUpper,
			transIn.Timestamp,
			useX96,
		}
		transactions = append(transactions, trans)
	}
''', '''		transactions = append(transactions, fromInput(transIn, useX96))
	}
'''), (MA, '''func stringToUint256(''', '''func fromInput(in ent.TransactionInput, useX96 bool) (t ent.Transaction) {
	t.ID, t.Type, t.Timestamp = in.ID, in.Type, in.Timestamp
	t.Tick, t.TickLower, t.TickUpper = in.Tick, in.TickLower, in.TickUpper
	t.Amount0 = stringToUint256(in.Amount0)
	t.Amount1 = stringToUint256(in.Amount1)
	t.Amount = stringToUint256(in.Amount)
	t.SqrtPriceX96 = stringToUint256(in.SqrtPriceX96)
	t.UseX96 = useX96
	return
}

func stringToUint256('''))
r('ma-trans-make', 'C26', (MA, '''	var transactions []ent.Transaction
	for _, transIn := range transactionsInput {
''', '''	transactions := make([]ent.Transaction, 0, len(transactionsInput))
	for i := range transactionsInput {
		transIn := &transactionsInput[i]
'''))
r('tr-helper', 'C26', (TR, '''	switch t.Type {
	case "Swap":
		return json.Marshal(&TransactionInput{
			Type:         t.Type,
			Amount0:      t.Amount0.SToBig().String(),
			Amount1:      t.Amount1.SToBig().String(),
			ID:           t.ID,
			SqrtPriceX96: t.SqrtPriceX96.SToBig().String(),
			Tick:         t.Tick,
			Timestamp:    t.Timestamp,
			UseX96:       strconv.FormatBool(t.UseX96),
		})
''', '''	dec := func(x *ui.Int) string { return x.SToBig().String() }
	out := TransactionInput{Type: t.Type, ID: t.ID, Timestamp: t.Timestamp}
	switch t.Type {
	case "Swap":
		out.Amount0, out.Amount1 = dec(t.Amount0), dec(t.Amount1)
		out.SqrtPriceX96 = dec(t.SqrtPriceX96)
		out.Tick = t.Tick
		out.UseX96 = strconv.FormatBool(t.UseX96)
		return json.Marshal(&out)
'''))
r('ma-str', 'C26', (MA, '''	bigint := new(big.Int)
	bigint.SetString(amount, 10)
	uint256, _ := ui.FromBig(bigint)
	return uint256
''', '''	n := new(big.Int)
	n.SetString(amount, 10)
	res, _ := ui.FromBig(n)
	return res
'''))
r('ma-drawdown-index', 'C23', (MA, '''	maxPrice := pricesFloat[0]
	maxDrawdown := 0.0
	for _, price := range pricesFloat {
		maxPrice = math.Max(maxPrice, price)
		drawdown := (price - maxPrice) / maxPrice
		maxDrawdown = math.Min(maxDrawdown, drawdown)
	}
	return maxDrawdown
''', '''	peak := 0
	maxDrawdown := 0.0
	for i, price := range pricesFloat {
		if price > pricesFloat[peak] {
			peak = i
		}
		maxDrawdown = math.Min(maxDrawdown, (price-pricesFloat[peak])/pricesFloat[peak])
	}
	return maxDrawdown
'''))
r('ma-drawdown-worst', 'C23', (MA, '''	for _, price := range pricesFloat {
		maxPrice = math.Max(maxPrice, price)
		drawdown := (price - maxPrice) / maxPrice
		maxDrawdown = math.Min(maxDrawdown, drawdown)
	}
	return maxDrawdown
''', '''	for _, price := range pricesFloat[1:] {
		if price > maxPrice {
			maxPrice = price
			continue
		}
		if drawdown := (price - maxPrice) / maxPrice; drawdown < maxDrawdown {
			maxDrawdown = drawdown
		}
	}
	return maxDrawdown
'''))
