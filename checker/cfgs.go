package main

// What a specification and the code it describes are allowed to share: calls
// taken as one operation at each level, decided on their own by other rules.

func vget(noIn ...int) *Vocab { return &Vocab{noIn: noIn} }

func mathVocab() map[string]*Vocab {
	v := map[string]*Vocab{
		"swapmath.ComputeSwapStep":             vget(),
		"tickmath.TickMath.GetSqrtRatioAtTick": vget(0),
		"tickmath.TickMath.GetTickAtSqrtRatio": vget(0),
	}
	for _, f := range []string{"GetAmount0Delta", "GetAmount1Delta", "GetAmount0DeltaRounded", "GetAmount1DeltaRounded", "GetNextSqrtPriceFromInput", "GetNextSqrtPriceFromOutput"} {
		v["sqrtprice_math."+f] = vget()
	}
	return v
}

// poolCfg: tick data as an object with the operations decided under C06 to C08.
func poolCfg() *Cfg {
	v := mathVocab()
	v["tickdata.TickData.UpdateTick"] = &Vocab{mut: []int{0}}
	v["tickdata.TickData.ClearTick"] = &Vocab{mut: []int{0}}
	v["tickdata.TickData.Cross"] = &Vocab{mut: []int{0}, lent: true}
	v["tickdata.TickData.GetTick"] = &Vocab{lent: true}
	v["tickdata.TickData.GetFeeGrowthInside"] = vget()
	v["tickdata.TickData.NextInitializedTickWithinOneWord"] = vget()
	return &Cfg{vocab: v, tokTypes: map[string]string{"tickdata.TickData": "region"}}
}

// poolOpenCfg: the same with the tick data opened up.
func poolOpenCfg() *Cfg { return &Cfg{vocab: mathVocab()} }

func tableCfg() *Cfg { return &Cfg{tables: true} }

// stratCfg: a strategy sees the pool, the price history and the conversions of
// liquidity and ticks as operations decided on their own.
func stratCfg() *Cfg {
	v := mathVocab()
	for _, f := range []string{"Round", "Ceil", "Floor"} {
		v["tickmath."+f] = vget()
	}
	v["liquidity_amounts.GetLiquidityForAmount"] = vget()
	v["liquidity_amounts.GetAmountsForLiquidity"] = vget()
	book := []string{"fixed", "price"}
	v["pool.Pool.MintStrategy"] = &Vocab{mut: []int{0}, keep: book}
	v["pool.Pool.BurnStrategy"] = &Vocab{mut: []int{0}, keep: book}
	v["pool.Pool.CollectStrategy"] = &Vocab{mut: []int{0}, keep: book}
	v["pool.Pool.ExactInputSwap"] = &Vocab{mut: []int{0}, keep: []string{"fixed"}}
	v["pool.Pool.ExactOutputSwap"] = &Vocab{mut: []int{0}, keep: []string{"fixed"}}
	v["pool.Pool.Clone"] = vget()
	v["prices.NewPrices"] = vget()
	v["prices.Prices.Add"] = &Vocab{mut: []int{0}}
	v["prices.Prices.Average"] = vget()
	v["prices.Prices.Volatility"] = vget()
	return &Cfg{vocab: v, closed: true,
		tokTypes: map[string]string{"pool.Pool": "region", "prices.Prices": "region"},
		fieldTok: map[string]string{
			"pool.Pool.SqrtRatioX96": "price", "pool.Pool.TickCurrent": "price",
			"pool.Pool.Token0": "fixed", "pool.Pool.Token1": "fixed", "pool.Pool.Fee": "fixed",
		},
		// NewPool and Clone see to it (C02)
		derived: map[string][2]string{"pool.Pool.TickSpacing": {"constants.TickSpaces", "Fee"}}}
}

// stratOpenCfg: the same with the table of spacings opened up.
func stratOpenCfg() *Cfg {
	c := stratCfg()
	c.closed = false
	return c
}

// execCfg: the replay sees a strategy and its pool as one object.
func execCfg() *Cfg {
	v := map[string]*Vocab{}
	for _, f := range []string{"Init", "Rebalance", "BurnAll", "MakeSnapshot"} {
		v["invoke.strategy.Strategy."+f] = &Vocab{world: true}
	}
	v["invoke.strategy.Strategy.GetAmounts"] = &Vocab{}
	v["invoke.strategy.Strategy.GetPool"] = &Vocab{pure: true}
	for _, f := range []string{"Mint", "Burn", "Flash", "ExactInputSwap", "ExactOutputSwap", "MintStrategy", "BurnStrategy", "CollectStrategy"} {
		v["pool.Pool."+f] = &Vocab{mut: []int{0}}
	}
	return &Cfg{vocab: v, tokTypes: map[string]string{"pool.Pool": "world"}}
}

// reportCfg: the metrics and the replay as operations.
func reportCfg() *Cfg {
	v := map[string]*Vocab{"executor.Execution.Run": {mut: []int{0}}, "main.stringToUint256": vget()}
	for _, f := range []string{"getReturns", "calculateStd", "calculateVar", "calculateDownDeviation", "calculateMaximumDrawdown"} {
		v["main."+f] = vget()
	}
	return &Cfg{vocab: v}
}

// wordCfg: 256-bit integers as four machine words.
func wordCfg() *Cfg { return &Cfg{limbs: true, bare: "uint256."} }

// divCfg: 256-bit integers as values, division by cases.
func divCfg() *Cfg { return &Cfg{divCases: true} }

func powCfg() *Cfg { return &Cfg{divCases: true, unroll: 8} }

// hexCfg: the same with hexadecimal text as one operation.
func hexCfg() *Cfg {
	c := wordCfg()
	c.vocab = map[string]*Vocab{"uint256.Int.Hex": vget()}
	return c
}
