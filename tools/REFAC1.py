# Behaviour-preserving edits: (id, properties to run, [(file, old, new)]).
P, TD, SM, SP, FM, LA, PR, EX, TM, PO, MA, TR = ['lib/' + x for x in ('pool/pool.go', 'tickdata/tickdata.go', 'swapmath/swapmath.go', 'sqrtprice_math/sqrtprice_math.go', 'fullmath/fullmath.go', 'liquidity_amounts/liquidity_amounts.go', 'prices/prices.go', 'executor/executor.go', 'tickmath/tickmath.go', 'position/position.go')] + ['main.go', 'lib/transaction/transaction.go']
POOL = 'C01,C09,C10,C11,C12'
R = [
('pool-next-helper', POOL, [(P, '''		if step.tickNext < tickmath.MinTick {
			step.tickNext = tickmath.MinTick
		} else if step.tickNext > tickmath.MaxTick {
			step.tickNext = tickmath.MaxTick
		}
''', '''		step.tickNext = clampTick(step.tickNext)
'''), (P, '''// Flash
''', '''func clampTick(t int) int {
	switch {
	case t > tickmath.MaxTick:
		return tickmath.MaxTick
	case t < tickmath.MinTick:
		return tickmath.MinTick
	}
	return t
}

// Flash
''')]),
('pool-target-helper', POOL, [(P, '''		var targetValue *ui.Int
		if zeroForOne {
			if step.sqrtPriceNextX96.Cmp(sqrtPriceLimitX96) < 0 {
				targetValue = sqrtPriceLimitX96
			} else {
				targetValue = step.sqrtPriceNextX96
			}
		} else {
			if step.sqrtPriceNextX96.Cmp(sqrtPriceLimitX96) > 0 {
				targetValue = sqrtPriceLimitX96
			} else {
				targetValue = step.sqrtPriceNextX96
			}
		}
''', '''		targetValue := step.sqrtPriceNextX96
		if (zeroForOne && targetValue.Lt(sqrtPriceLimitX96)) || (!zeroForOne && targetValue.Gt(sqrtPriceLimitX96)) {
			targetValue = sqrtPriceLimitX96
		}
''')]),
('pool-target-pick', POOL, [(P, '''			if step.sqrtPriceNextX96.Cmp(sqrtPriceLimitX96) < 0 {
				targetValue = sqrtPriceLimitX96
			} else {
				targetValue = step.sqrtPriceNextX96
			}
		} else {
			if step.sqrtPriceNextX96.Cmp(sqrtPriceLimitX96) > 0 {
				targetValue = sqrtPriceLimitX96
			} else {
				targetValue = step.sqrtPriceNextX96
			}
		}
''', '''			targetValue = maxInt(sqrtPriceLimitX96, step.sqrtPriceNextX96)
		} else {
			targetValue = minInt(sqrtPriceLimitX96, step.sqrtPriceNextX96)
		}
'''), (P, '''// Flash
''', '''func maxInt(a, b *ui.Int) *ui.Int {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

func minInt(a, b *ui.Int) *ui.Int {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}

// Flash
''')]),
('pool-limit-default', POOL, [(P, '''	sqrtPriceLimitX96 := sqrtPriceLimitX96In.Clone()
	// Allow Zero as sqrtPriceLimitX96
	if sqrtPriceLimitX96.IsZero() {
		if zeroForOne {
			sqrtPriceLimitX96.Add(tickmath.MinSqrtRatio, cons.One)
		} else {
			sqrtPriceLimitX96.Sub(tickmath.MaxSqrtRatio, cons.One)
		}
	}
''', '''	sqrtPriceLimitX96 := sqrtPriceLimitX96In
	if sqrtPriceLimitX96In.IsZero() {
		sqrtPriceLimitX96 = defaultLimit(zeroForOne)
	}
'''), (P, '''// Flash
''', '''func defaultLimit(zeroForOne bool) *ui.Int {
	if !zeroForOne {
		return new(ui.Int).Sub(tickmath.MaxSqrtRatio, cons.One)
	}
	return new(ui.Int).Add(tickmath.MinSqrtRatio, cons.One)
}

// Flash
''')]),
('pool-limit-check', POOL, [(P, '''	var cond bool
	if zeroForOne {
		cond = sqrtPriceLimitX96.Cmp(p.SqrtRatioX96) == -1 && sqrtPriceLimitX96.Cmp(tickmath.MinSqrtRatio) == 1
	} else {
		cond = sqrtPriceLimitX96.Cmp(p.SqrtRatioX96) == 1 && sqrtPriceLimitX96.Cmp(tickmath.MaxSqrtRatio) == -1
	}
	invariant.Invariant(cond, "sqrtPriceLimitX96 must be between min and max")
''', '''	if zeroForOne {
		invariant.Invariant(sqrtPriceLimitX96.Lt(p.SqrtRatioX96), "limit above price")
		invariant.Invariant(sqrtPriceLimitX96.Gt(tickmath.MinSqrtRatio), "limit below min")
	} else {
		if !sqrtPriceLimitX96.Gt(p.SqrtRatioX96) || !sqrtPriceLimitX96.Lt(tickmath.MaxSqrtRatio) {
			panic("sqrtPriceLimitX96 must be between min and max")
		}
	}
''')]),
('pool-swap-locals', POOL, [(P, '''	state := stateStruct{
		amountSpecified.Clone(),
		ui.NewInt(0),
		p.SqrtRatioX96.Clone(),
		p.TickCurrent,
		feeGrowthGlobalX128.Clone(),
		p.Liquidity.Clone(),
	}
''', '''	state := &stateStruct{
		liquidity:                 p.Liquidity.Clone(),
		tick:                      p.TickCurrent,
		sqrtPriceX96:              p.SqrtRatioX96.Clone(),
		amountCalculatedI:         new(ui.Int),
		amountSpecifiedRemainingI: amountSpecified.Clone(),
		feeGrowthGlobalX128:       feeGrowthGlobalX128.Clone(),
	}
''')]),
('pool-swap-for-break', POOL, [(P, '''	for !state.amountSpecifiedRemainingI.IsZero() && state.sqrtPriceX96.Cmp(sqrtPriceLimitX96) != 0 {
		var step''', '''	for {
		if state.amountSpecifiedRemainingI.IsZero() {
			break
		}
		if state.sqrtPriceX96.Eq(sqrtPriceLimitX96) {
			break
		}
		var step''')]),
('pool-swap-accrue', POOL, [(P, '''		if exactInput {
			state.amountSpecifiedRemainingI.Sub(state.amountSpecifiedRemainingI, new(ui.Int).Add(step.amountIn, step.feeAmount))
			state.amountCalculatedI.Sub(state.amountCalculatedI, step.amountOut)

		} else { // exactOutput
			state.amountSpecifiedRemainingI = new(ui.Int).Add(state.amountSpecifiedRemainingI, step.amountOut)
			state.amountCalculatedI = new(ui.Int).Add(state.amountCalculatedI, new(ui.Int).Add(step.amountIn, step.feeAmount))

		}
''', '''		paid := new(ui.Int).Add(step.feeAmount, step.amountIn)
		if exactInput {
			state.amountSpecifiedRemainingI.Sub(state.amountSpecifiedRemainingI, paid)
			state.amountCalculatedI.Sub(state.amountCalculatedI, step.amountOut)
		} else {
			state.amountCalculatedI.Add(state.amountCalculatedI, paid)
			state.amountSpecifiedRemainingI.Add(state.amountSpecifiedRemainingI, step.amountOut)
		}
''')]),
('pool-swap-feehelper', POOL, [(P, '''		if state.liquidity.Sign() > 0 {
			fee := fullmath.MulDiv(step.feeAmount, cons.Q128, state.liquidity)
			state.feeGrowthGlobalX128.Add(state.feeGrowthGlobalX128, fee)
		}
''', '''		state.accrue(step.feeAmount)
'''), (P, '''// Flash
''', '''func (s *stateStruct) accrue(fee *ui.Int) {
	if s.liquidity.Sign() <= 0 {
		return
	}
	growth := fullmath.MulDiv(fee, cons.Q128, s.liquidity)
	s.feeGrowthGlobalX128 = growth.Add(growth, s.feeGrowthGlobalX128)
}

// Flash
''')]),
('pool-swap-crosshelper', POOL, [(P, '''				var feeGrowthGlobal0X128, feeGrowthGlobal1X128 *ui.Int
				if zeroForOne {
					feeGrowthGlobal0X128 = state.feeGrowthGlobalX128
					feeGrowthGlobal1X128 = p.FeeGrowthGlobal1X128
				} else {
					feeGrowthGlobal0X128 = p.FeeGrowthGlobal0X128
					feeGrowthGlobal1X128 = state.feeGrowthGlobalX128
				}
				liquidityNet := p.TickData.Cross(step.tickNext, feeGrowthGlobal0X128, feeGrowthGlobal1X128)

				if zeroForOne {
					state.liquidity = state.liquidity.Sub(state.liquidity, liquidityNet)
				} else {
					state.liquidity = state.liquidity.Add(state.liquidity, liquidityNet)
				}
			}
''', '''				p.crossTick(&state, step.tickNext, zeroForOne)
			}
'''), (P, '''// Flash
''', '''func (p *Pool) crossTick(state *stateStruct, tick int, zeroForOne bool) {
	if zeroForOne {
		net := p.TickData.Cross(tick, state.feeGrowthGlobalX128, p.FeeGrowthGlobal1X128)
		state.liquidity.Sub(state.liquidity, net)
		return
	}
	net := p.TickData.Cross(tick, p.FeeGrowthGlobal0X128, state.feeGrowthGlobalX128)
	state.liquidity.Add(state.liquidity, net)
}

// Flash
''')]),
('pool-swap-crossneg', POOL, [(P, '''				if zeroForOne {
					state.liquidity = state.liquidity.Sub(state.liquidity, liquidityNet)
				} else {
					state.liquidity = state.liquidity.Add(state.liquidity, liquidityNet)
				}
			}
			if zeroForOne {
				state.tick = step.tickNext - 1
			} else {
				state.tick = step.tickNext
			}
''', '''				if zeroForOne {
					liquidityNet = new(ui.Int).Neg(liquidityNet)
				}
				state.liquidity = new(ui.Int).Add(state.liquidity, liquidityNet)
			}
			state.tick = step.tickNext
			if zeroForOne {
				state.tick--
			}
''')]),
('pool-swap-end', POOL, [(P, '''	// Update Slot0
	p.TickCurrent = state.tick
	p.Liquidity = state.liquidity
	p.SqrtRatioX96 = state.sqrtPriceX96

	if zeroForOne {
		p.FeeGrowthGlobal0X128 = state.feeGrowthGlobalX128
	} else {
		p.FeeGrowthGlobal1X128 = state.feeGrowthGlobalX128
	}

	amount0, amount1 := new(ui.Int), new(ui.Int)
	if zeroForOne == exactInput {
		amount0.Sub(amountSpecified, state.amountSpecifiedRemainingI)
		amount1.Set(state.amountCalculatedI)
	} else {
		amount0.Set(state.amountCalculatedI)
		amount1.Sub(amountSpecified, state.amountSpecifiedRemainingI)
	}
	return amount0, amount1
''', '''	if zeroForOne {
		p.FeeGrowthGlobal0X128 = state.feeGrowthGlobalX128
	} else {
		p.FeeGrowthGlobal1X128 = state.feeGrowthGlobalX128
	}
	p.SqrtRatioX96, p.Liquidity, p.TickCurrent = state.sqrtPriceX96, state.liquidity, state.tick

	used := new(ui.Int).Sub(amountSpecified, state.amountSpecifiedRemainingI)
	if zeroForOne != exactInput {
		return state.amountCalculatedI, used
	}
	return used, state.amountCalculatedI
''')]),
('pool-modify-switch', POOL, [(P, '''	if p.TickCurrent < tickLower {
		amount0 = sqrtprice_math.GetAmount0DeltaRounded(tickmath.TM.GetSqrtRatioAtTick(tickLower), tickmath.TM.GetSqrtRatioAtTick(tickUpper), amount)
		amount1 = ui.NewInt(0)
	} else if p.TickCurrent < tickUpper {
		amount0 = sqrtprice_math.GetAmount0DeltaRounded(p.SqrtRatioX96, tickmath.TM.GetSqrtRatioAtTick(tickUpper), amount)
		amount1 = sqrtprice_math.GetAmount1DeltaRounded(p.SqrtRatioX96, tickmath.TM.GetSqrtRatioAtTick(tickLower), amount)
		p.Liquidity.Add(p.Liquidity, amount)
	} else {
		amount0 = ui.NewInt(0)
		amount1 = sqrtprice_math.GetAmount1DeltaRounded(tickmath.TM.GetSqrtRatioAtTick(tickLower), tickmath.TM.GetSqrtRatioAtTick(tickUpper), amount)
	}

	return
''', '''	lower, upper := tickmath.TM.GetSqrtRatioAtTick(tickLower), tickmath.TM.GetSqrtRatioAtTick(tickUpper)
	amount0, amount1 = new(ui.Int), new(ui.Int)
	switch {
	case p.TickCurrent >= tickUpper:
		amount1 = sqrtprice_math.GetAmount1DeltaRounded(lower, upper, amount)
	case p.TickCurrent >= tickLower:
		amount0 = sqrtprice_math.GetAmount0DeltaRounded(p.SqrtRatioX96, upper, amount)
		amount1 = sqrtprice_math.GetAmount1DeltaRounded(p.SqrtRatioX96, lower, amount)
		p.Liquidity = new(ui.Int).Add(p.Liquidity, amount)
	default:
		amount0 = sqrtprice_math.GetAmount0DeltaRounded(lower, upper, amount)
	}
	return pos, amount0, amount1
''')]),
('pool-position-get', POOL, [(P, '''	if pos == nil {
		pos = position.NewPosition()
		pos.Update(amount, feeGrowthInside0X128, feeGrowthInside1X128)
		p.Positions[searchString] = pos
	} else {
		pos.Update(amount, feeGrowthInside0X128, feeGrowthInside1X128)
		p.Positions[searchString] = pos
	}
''', '''	if pos == nil {
		pos = position.NewPosition()
		p.Positions[searchString] = pos
	}
	pos.Update(amount, feeGrowthInside0X128, feeGrowthInside1X128)
''')]),
('pool-position-ok', POOL, [(P, '''	pos = p.Positions[searchString]
	if pos == nil {
		pos = position.NewPosition()
		pos.Update(amount, feeGrowthInside0X128, feeGrowthInside1X128)
		p.Positions[searchString] = pos
	} else {
		pos.Update(amount, feeGrowthInside0X128, feeGrowthInside1X128)
		p.Positions[searchString] = pos
	}
''', '''	pos = p.positionAt(searchString)
	pos.Update(amount, feeGrowthInside0X128, feeGrowthInside1X128)
'''), (P, '''// Flash
''', '''func (p *Pool) positionAt(key string) *position.Info {
	if found := p.Positions[key]; found != nil {
		return found
	}
	created := position.NewPosition()
	p.Positions[key] = created
	return created
}

// Flash
''')]),
('pool-key-sprintf', POOL, [(P, '''	return strconv.Itoa(tickLower) + "-" + strconv.Itoa(tickUpper)
''', '''	return fmt.Sprintf("%d:%d", tickLower, tickUpper)
'''), (P, '''	"strconv"
''', '''	"fmt"
''')]),
('pool-key-struct', POOL, [(P, '''func positionKey(tickLower, tickUpper int) string {
	return strconv.Itoa(tickLower) + "-" + strconv.Itoa(tickUpper)
}''', '''func positionKey(tickLower, tickUpper int) [2]int {
	return [2]int{tickLower, tickUpper}
}'''), (P, '''	"strconv"
''', ''), (P, 'map[string]*position.Info', 'map[[2]int]*position.Info')]),
('pool-clear-helper', POOL, [(P, '''	if clearLower {
		p.TickData.ClearTick(lower)
	}
	if clearUpper {
		p.TickData.ClearTick(upper)
	}

	if p.TickCurrent >= lower && p.TickCurrent < upper {
		p.Liquidity.Add(p.Liquidity, amount)
	}
''', '''	if lower <= p.TickCurrent && p.TickCurrent < upper {
		p.Liquidity.Add(p.Liquidity, amount)
	}
	p.clearTicks(lower, upper, clearLower, clearUpper)
'''), (P, '''	if amount.Sign() == -1 {
		if clearLower {
			p.TickData.ClearTick(tickLower)
		}
		if clearUpper {
			p.TickData.ClearTick(tickUpper)
		}
	}
	return
''', '''	if amount.Sign() < 0 {
		p.clearTicks(tickLower, tickUpper, clearLower, clearUpper)
	}
	return
'''), (P, '''// Flash
''', '''func (p *Pool) clearTicks(lower, upper int, clearLower, clearUpper bool) {
	if clearLower {
		p.TickData.ClearTick(lower)
	}
	if clearUpper {
		p.TickData.ClearTick(upper)
	}
}

// Flash
''')]),
('pool-burn-reorder', POOL, [(P, '''	amount0, amount1 := new(ui.Int).Neg(amount0Int), new(ui.Int).Neg(amount1Int)
	pos.TokensOwed0.Add(pos.TokensOwed0, amount0)
	pos.TokensOwed1.Add(pos.TokensOwed1, amount1)
	// return is kinda useless
	return amount0, amount1
''', '''	amount1 := amount1Int.Neg(amount1Int)
	amount0 := amount0Int.Neg(amount0Int)
	pos.TokensOwed1 = new(ui.Int).Add(pos.TokensOwed1, amount1)
	pos.TokensOwed0 = new(ui.Int).Add(amount0, pos.TokensOwed0)
	return amount0, amount1
''')]),
('pool-collect-swap', POOL, [(P, '''	amount0 = pos.TokensOwed0.Clone()
	amount1 = pos.TokensOwed1.Clone()

	pos.TokensOwed0.Set(cons.Zero)
	pos.TokensOwed1.Set(cons.Zero)

	return
''', '''	amount0, pos.TokensOwed0 = pos.TokensOwed0, ui.NewInt(0)
	amount1, pos.TokensOwed1 = pos.TokensOwed1, ui.NewInt(0)
	return amount0, amount1
''')]),
('pool-collect-loop', POOL, [(P, '''	amount0 = pos.TokensOwed0.Clone()
	amount1 = pos.TokensOwed1.Clone()

	pos.TokensOwed0.Set(cons.Zero)
	pos.TokensOwed1.Set(cons.Zero)

	return
''', '''	var out [2]*ui.Int
	for i, owed := range []*ui.Int{pos.TokensOwed0, pos.TokensOwed1} {
		out[i] = owed.Clone()
		owed.Clear()
	}
	return out[0], out[1]
''')]),
('pool-flash-helper', POOL, [(P, '''	fee0 := fullmath.MulDivRoundingUp(amount0, ui.NewInt(uint64(p.Fee)), ui.NewInt(1_000_000))
	fee1 := fullmath.MulDivRoundingUp(amount1, ui.NewInt(uint64(p.Fee)), ui.NewInt(1_000_000))

	fee0Q128 := fullmath.MulDiv(fee0, cons.Q128, p.Liquidity)
	fee1Q128 := fullmath.MulDiv(fee1, cons.Q128, p.Liquidity)

	p.FeeGrowthGlobal0X128.Add(p.FeeGrowthGlobal0X128, fee0Q128)
	p.FeeGrowthGlobal1X128.Add(p.FeeGrowthGlobal1X128, fee1Q128)
''', '''	p.FeeGrowthGlobal1X128 = new(ui.Int).Add(p.FeeGrowthGlobal1X128, p.flashGrowth(amount1))
	p.FeeGrowthGlobal0X128 = new(ui.Int).Add(p.FeeGrowthGlobal0X128, p.flashGrowth(amount0))
'''), (P, '''// Flash
''', '''func (p *Pool) flashGrowth(amount *ui.Int) *ui.Int {
	fee := fullmath.MulDivRoundingUp(amount, ui.NewInt(uint64(p.Fee)), swapmath.MaxFee)
	return fullmath.MulDiv(fee, cons.Q128, p.Liquidity)
}

// Flash
''')]),
('pool-clone-struct', POOL, [(P, '''	positions := make(map[string]*position.Info)
	for k, v := range p.Positions {
		positions[k] = v.Clone()
	}
	return &Pool{
		Token0:               p.Token0,
		Token1:               p.Token1,
		Fee:                  p.Fee,
		SqrtRatioX96:         p.SqrtRatioX96.Clone(),
		Liquidity:            p.Liquidity.Clone(),
		FeeGrowthGlobal0X128: p.FeeGrowthGlobal0X128.Clone(),
		FeeGrowthGlobal1X128: p.FeeGrowthGlobal1X128.Clone(),
		TickSpacing:          p.TickSpacing,
		TickCurrent:          p.TickCurrent,
		TickData:             p.TickData.Clone(),
		Positions:            positions,
	}
''', '''	c := *p
	c.SqrtRatioX96 = p.SqrtRatioX96.Clone()
	c.Liquidity = p.Liquidity.Clone()
	c.FeeGrowthGlobal0X128 = p.FeeGrowthGlobal0X128.Clone()
	c.FeeGrowthGlobal1X128 = p.FeeGrowthGlobal1X128.Clone()
	c.TickData = p.TickData.Clone()
	c.Positions = clonePositions(p.Positions)
	return &c
'''), (P, '''// Flash
''', '''func clonePositions(in map[string]*position.Info) map[string]*position.Info {
	out := make(map[string]*position.Info, len(in))
	for key := range in {
		out[key] = in[key].Clone()
	}
	return out
}

// Flash
''')]),
('pool-new-fields', POOL, [(P, '''	tickSpacing := cons.TickSpaces[fee]
	liquidity := ui.NewInt(0)
	tickCurrent := tickmath.TM.GetTickAtSqrtRatio(sqrtRatioX96)
	tickData := td.NewTickData(tickSpacing)

	positions := make(map[string]*position.Info)
	pool := &Pool{
		token0,
		token1,
		fee,
		sqrtRatioX96,
		liquidity,
		cons.Zero.Clone(),
		cons.Zero.Clone(),
		tickSpacing,
		tickCurrent,
		tickData,
		positions,
	}
	return pool
''', '''	pool := new(Pool)
	pool.Token0, pool.Token1, pool.Fee = token0, token1, fee
	pool.SqrtRatioX96 = sqrtRatioX96
	pool.Liquidity = new(ui.Int)
	pool.FeeGrowthGlobal0X128 = new(ui.Int)
	pool.FeeGrowthGlobal1X128 = ui.NewInt(0)
	pool.TickSpacing = cons.TickSpaces[fee]
	pool.TickCurrent = tickmath.TM.GetTickAtSqrtRatio(sqrtRatioX96)
	pool.TickData = td.NewTickData(pool.TickSpacing)
	pool.Positions = map[string]*position.Info{}
	return pool
''')]),
('pool-checkticks-if', POOL, [(P, '''	invariant.Invariant(tickLower < tickUpper, "tickLower must be less than tickUpper")
	invariant.Invariant(tickLower >= tickmath.MinTick, "tickLower must be greater than or equal to MinTick")
	invariant.Invariant(tickUpper <= tickmath.MaxTick, "tickUpper must be less than or equal to MaxTick")
''', '''	if tickUpper > tickmath.MaxTick || tickLower < tickmath.MinTick || tickUpper <= tickLower {
		panic("invalid tick range")
	}
''')]),
('pool-mint-isneg', POOL, [(P, '''	invariant.Invariant(amount.Sgt(cons.Zero), "amount must be greater than zero")
	_, amount0, amount1 = p.modifyPositionStrategy(tickLower, tickUpper, amount)
	return
''', '''	if amount.Sign() != 1 {
		panic("amount must be greater than zero")
	}
	_, amount0, amount1 = p.modifyPositionStrategy(tickLower, tickUpper, amount)
	return amount0, amount1
''')]),
# ---- tick data
('td-clone-append', 'C12,C07', [(TD, '''	newTickData := &TickData{
		ticks:       make([]Tick, len(t.ticks)),
		tickSpacing: t.tickSpacing,
	}
	for i, tick := range t.ticks {
		newTickData.ticks[i] = Tick{
			Index:                 tick.Index,
			LiquidityNet:          tick.LiquidityNet.Clone(),
			LiquidityGross:        tick.LiquidityGross.Clone(),
			FeeGrowthOutside0X128: tick.FeeGrowthOutside0X128.Clone(),
			FeeGrowthOutside1X128: tick.FeeGrowthOutside1X128.Clone(),
		}
	}
	return newTickData
''', '''	ticks := make([]Tick, 0, len(t.ticks))
	for i := range t.ticks {
		ticks = append(ticks, t.ticks[i].clone())
	}
	return &TickData{ticks: ticks, tickSpacing: t.tickSpacing}
'''), (TD, '''func (t *TickData) Print() {''', '''func (k Tick) clone() Tick {
	k.LiquidityNet = k.LiquidityNet.Clone()
	k.LiquidityGross = k.LiquidityGross.Clone()
	k.FeeGrowthOutside0X128 = k.FeeGrowthOutside0X128.Clone()
	k.FeeGrowthOutside1X128 = k.FeeGrowthOutside1X128.Clone()
	return k
}

func (t *TickData) Print() {''')]),
('td-clone-copy', 'C12,C07', [(TD, '''	for i, tick := range t.ticks {
		newTickData.ticks[i] = Tick{
			Index:                 tick.Index,
			LiquidityNet:          tick.LiquidityNet.Clone(),
			LiquidityGross:        tick.LiquidityGross.Clone(),
			FeeGrowthOutside0X128: tick.FeeGrowthOutside0X128.Clone(),
			FeeGrowthOutside1X128: tick.FeeGrowthOutside1X128.Clone(),
		}
	}
''', '''	copy(newTickData.ticks, t.ticks)
	for i := range newTickData.ticks {
		tick := &newTickData.ticks[i]
		tick.LiquidityNet = tick.LiquidityNet.Clone()
		tick.LiquidityGross = tick.LiquidityGross.Clone()
		tick.FeeGrowthOutside0X128 = tick.FeeGrowthOutside0X128.Clone()
		tick.FeeGrowthOutside1X128 = tick.FeeGrowthOutside1X128.Clone()
	}
''')]),
('td-cross-ptr', 'C07,C01', [(TD, '''	info := t.GetTick(tick)
	info.FeeGrowthOutside0X128.Sub(feeGrowthGlobal0X128, info.FeeGrowthOutside0X128)
	info.FeeGrowthOutside1X128.Sub(feeGrowthGlobal1X128, info.FeeGrowthOutside1X128)
	liquidityNet = info.LiquidityNet
	return
''', '''	i := t.binarySearch(tick)
	info := &t.ticks[i]
	if info.Index != tick {
		panic("tick index not contained")
	}
	info.FeeGrowthOutside1X128 = new(ui.Int).Sub(feeGrowthGlobal1X128, info.FeeGrowthOutside1X128)
	info.FeeGrowthOutside0X128 = new(ui.Int).Sub(feeGrowthGlobal0X128, info.FeeGrowthOutside0X128)
	return info.LiquidityNet
''')]),
('td-make-shared', 'C07', [(TD, '''	if tick <= tickCurrent {
		return Tick{
			Index:                 tick,
			LiquidityNet:          liquidityNet.Clone(),
			LiquidityGross:        liquidityGross.Clone(),
			FeeGrowthOutside0X128: feeGrowthOutside0X128.Clone(),
			FeeGrowthOutside1X128: feeGrowthOutside1X128.Clone(),
		}
	} else {
		return Tick{
			Index:                 tick,
			LiquidityNet:          liquidityNet.Clone(),
			LiquidityGross:        liquidityGross.Clone(),
			FeeGrowthOutside0X128: cons.Zero.Clone(),
			FeeGrowthOutside1X128: cons.Zero.Clone(),
		}
	}
''', '''	if tick > tickCurrent {
		feeGrowthOutside0X128, feeGrowthOutside1X128 = cons.Zero, cons.Zero
	}
	return Tick{
		Index:                 tick,
		LiquidityNet:          liquidityNet.Clone(),
		LiquidityGross:        liquidityGross.Clone(),
		FeeGrowthOutside0X128: feeGrowthOutside0X128.Clone(),
		FeeGrowthOutside1X128: feeGrowthOutside1X128.Clone(),
	}
''')]),
('td-update-net', 'C07', [(TD, '''	var z = new(ui.Int)
	if upper {
		z.Neg(liquidityDelta)
	} else {
		z.Set(liquidityDelta)
	}
	if found {
		tick := t.ticks[i]
		if upper {
			tick.LiquidityNet.Sub(tick.LiquidityNet, liquidityDelta)
		} else {
			tick.LiquidityNet.Add(tick.LiquidityNet, liquidityDelta)
		}
		tick.LiquidityGross.Add(tick.LiquidityGross, liquidityDelta)
		//delete cause its zero
		if tick.LiquidityGross.IsZero() {
			return true
		}
	} else {
		tick''', '''	net := liquidityDelta.Clone()
	if upper {
		net.Neg(net)
	}
	if found {
		tick := &t.ticks[i]
		tick.LiquidityNet.Add(tick.LiquidityNet, net)
		tick.LiquidityGross.Add(tick.LiquidityGross, liquidityDelta)
		return tick.LiquidityGross.IsZero()
	} else {
		z := net
		tick''')]),
('td-insert-make', 'C07', [(TD, '''		switch i {
		case -2:
			t.ticks = append(t.ticks, tick)
		case -1:
			t.ticks = append([]Tick{tick}, t.ticks...)
		default:
			t.ticks = append(t.ticks[:i+1], t.ticks[i:]...)
			t.ticks[i] = tick
		}
''', '''		t.insertAt(i, tick)
'''), (TD, '''func (t *TickData) Print() {''', '''func (t *TickData) insertAt(i int, tick Tick) {
	if i == -2 {
		t.ticks = append(t.ticks, tick)
		return
	}
	if i == -1 {
		i = 0
	}
	t.ticks = append(t.ticks, Tick{})
	copy(t.ticks[i+1:], t.ticks[i:])
	t.ticks[i] = tick
}

func (t *TickData) Print() {''')]),
('td-insert-new', 'C07', [(TD, '''			t.ticks = append(t.ticks[:i+1], t.ticks[i:]...)
			t.ticks[i] = tick
''', '''			grown := make([]Tick, 0, len(t.ticks)+1)
			grown = append(grown, t.ticks[:i]...)
			grown = append(grown, tick)
			t.ticks = append(grown, t.ticks[i:]...)
''')]),
('td-clear-copy', 'C07', [(TD, '''		t.ticks = append(t.ticks[:i], t.ticks[i+1:]...)
''', '''		copy(t.ticks[i:], t.ticks[i+1:])
		t.ticks = t.ticks[:len(t.ticks)-1]
''')]),
('td-sortsearch', 'C06,C07,C08', [(TD, '''	l := 0
	r := len(t.ticks) - 1
	var i int
	for {
		i = (l + r) / 2
		if t.ticks[i].Index <= tick && (i == len(t.ticks)-1 || t.ticks[i+1].Index > tick) {
			return i
		}
		if t.ticks[i].Index < tick {
			l = i + 1
		} else {
			r = i - 1
		}
	}
''', '''	return sort.Search(len(t.ticks), func(i int) bool { return t.ticks[i].Index > tick }) - 1
'''), (TD, '''	"fmt"
''', '''	"fmt"
	"sort"
''')]),
('td-binsearch-half', 'C06,C07,C08', [(TD, '''	l := 0
	r := len(t.ticks) - 1
	var i int
	for {
		i = (l + r) / 2
		if t.ticks[i].Index <= tick && (i == len(t.ticks)-1 || t.ticks[i+1].Index > tick) {
			return i
		}
		if t.ticks[i].Index < tick {
			l = i + 1
		} else {
			r = i - 1
		}
	}
''', '''	// ticks[lo].Index <= tick < ticks[hi].Index
	lo, hi := 0, len(t.ticks)
	for hi-lo > 1 {
		mid := lo + (hi-lo)/2
		if t.ticks[mid].Index <= tick {
			lo = mid
		} else {
			hi = mid
		}
	}
	return lo
''')]),
('td-linear', 'C06,C07,C08', [(TD, '''	l := 0
	r := len(t.ticks) - 1
	var i int
	for {
		i = (l + r) / 2
		if t.ticks[i].Index <= tick && (i == len(t.ticks)-1 || t.ticks[i+1].Index > tick) {
			return i
		}
		if t.ticks[i].Index < tick {
			l = i + 1
		} else {
			r = i - 1
		}
	}
''', '''	at := 0
	for i, c := range t.ticks {
		if c.Index > tick {
			break
		}
		at = i
	}
	return at
''')]),
('td-search2-lower', 'C07', [(TD, '''	var i int
	for l < r {
		i = l + ((r - l) / 2)
		if tick == t.ticks[i].Index {
			return i, true
		}
		if t.ticks[i].Index < tick {
			l = i + 1
		} else {
			r = i
		}
	}
	if tick == t.ticks[l].Index {
		return l, true
	}

	return l, false
''', '''	for l < r {
		m := (l + r) / 2
		if t.ticks[m].Index >= tick {
			r = m
		} else {
			l = m + 1
		}
	}
	return l, t.ticks[l].Index == tick
''')]),
('td-growth-helper', 'C08', [(TD, '''	var feeGrowthBelow0X128, feeGrowthBelow1X128 *ui.Int
	if tickCurrent >= tickLower {
		feeGrowthBelow0X128 = new(ui.Int).Set(lower.FeeGrowthOutside0X128)
		feeGrowthBelow1X128 = new(ui.Int).Set(lower.FeeGrowthOutside1X128)
	} else {
		feeGrowthBelow0X128 = new(ui.Int).Sub(feeGrowthGlobal0X128, lower.FeeGrowthOutside0X128)
		feeGrowthBelow1X128 = new(ui.Int).Sub(feeGrowthGlobal1X128, lower.FeeGrowthOutside1X128)
	}
	var feeGrowthAbove0X128, feeGrowthAbove1X128 *ui.Int
	if tickCurrent < tickUpper {
		feeGrowthAbove0X128 = new(ui.Int).Set(upper.FeeGrowthOutside0X128)
		feeGrowthAbove1X128 = new(ui.Int).Set(upper.FeeGrowthOutside1X128)
	} else {
		feeGrowthAbove0X128 = new(ui.Int).Sub(feeGrowthGlobal0X128, upper.FeeGrowthOutside0X128)
		feeGrowthAbove1X128 = new(ui.Int).Sub(feeGrowthGlobal1X128, upper.FeeGrowthOutside1X128)
	}
	feeGrowthInside0X128 = new(ui.Int).Sub(feeGrowthGlobal0X128, feeGrowthBelow0X128)
	feeGrowthInside0X128.Sub(feeGrowthInside0X128, feeGrowthAbove0X128)
	feeGrowthInside1X128 = new(ui.Int).Sub(feeGrowthGlobal1X128, feeGrowthBelow1X128)
	feeGrowthInside1X128.Sub(feeGrowthInside1X128, feeGrowthAbove1X128)
	return
''', '''	inside := func(global, lo, hi *ui.Int) *ui.Int {
		below, above := lo, hi
		if tickCurrent < tickLower {
			below = new(ui.Int).Sub(global, lo)
		}
		if tickCurrent >= tickUpper {
			above = new(ui.Int).Sub(global, hi)
		}
		sum := new(ui.Int).Add(below, above)
		return sum.Sub(global, sum)
	}
	feeGrowthInside0X128 = inside(feeGrowthGlobal0X128, lower.FeeGrowthOutside0X128, upper.FeeGrowthOutside0X128)
	feeGrowthInside1X128 = inside(feeGrowthGlobal1X128, lower.FeeGrowthOutside1X128, upper.FeeGrowthOutside1X128)
	return
''')]),
('td-growth-cases', 'C08', [(TD, '''	var feeGrowthBelow0X128, feeGrowthBelow1X128 *ui.Int
	if tickCurrent >= tickLower {
		feeGrowthBelow0X128 = new(ui.Int).Set(lower.FeeGrowthOutside0X128)
		feeGrowthBelow1X128 = new(ui.Int).Set(lower.FeeGrowthOutside1X128)
	} else {''', '''	// v3-core: below, inside, above
	if tickCurrent < tickLower {
		return new(ui.Int).Sub(lower.FeeGrowthOutside0X128, upper.FeeGrowthOutside0X128), new(ui.Int).Sub(lower.FeeGrowthOutside1X128, upper.FeeGrowthOutside1X128)
	}
	var feeGrowthBelow0X128, feeGrowthBelow1X128 *ui.Int
	if tickCurrent >= tickLower {
		feeGrowthBelow0X128 = new(ui.Int).Set(lower.FeeGrowthOutside0X128)
		feeGrowthBelow1X128 = new(ui.Int).Set(lower.FeeGrowthOutside1X128)
	} else {''')]),
('td-next-inline', 'C06', [(TD, '''		index := t.nextInitializedTick(tick, lte).Index
		nextInitializedTick := max(minimum, index)
		return nextInitializedTick, nextInitializedTick == index
	} else {''', '''		index := t.ticks[t.binarySearch(tick)].Index
		if index < minimum {
			return minimum, false
		}
		return index, true
	} else {''')]),
('td-next-floor', 'C06', [(TD, '''	compressed := tick / t.tickSpacing
	if tick < 0 && tick%t.tickSpacing != 0 {
		compressed-- // round towards negative infinity
	}
''', '''	compressed := t.compress(tick)
'''), (TD, '''func (t *TickData) Print() {''', '''func (t *TickData) compress(tick int) int {
	q, r := tick/t.tickSpacing, tick%t.tickSpacing
	if r != 0 && tick < 0 {
		return q - 1
	}
	return q
}

func (t *TickData) Print() {''')]),
('td-next-mul', 'C06', [(TD, '''		minimum := (wordPos << 8) * t.tickSpacing
''', '''		minimum := wordPos * 256 * t.tickSpacing
'''), (TD, '''		maximum := (((wordPos + 1) << 8) - 1) * t.tickSpacing
''', '''		maximum := (wordPos*256 + 255) * t.tickSpacing
''')]),
]
