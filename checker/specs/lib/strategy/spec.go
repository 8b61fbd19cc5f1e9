package strategy

import (
	cons "uniswap-simulator/lib/constants"
	la "uniswap-simulator/lib/liquidity_amounts"
	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/prices"
	"uniswap-simulator/lib/tickmath"
	ui "uniswap-simulator/uint256"
)

const (
	zzMinTick = -887272
	zzMaxTick = 887272
)

func zzMinSqrt() *ui.Int { return ui.NewInt(4295128739) }

func zzMaxSqrt() *ui.Int {
	x, _ := ui.FromHex("0xfffd8963efd1fc6a506488495d951d5263988d26")
	return x
}

func zzSpacing(p *pool.Pool) int { return cons.TickSpaces[p.Fee] }

func zzAt(tick int) *ui.Int { return tickmath.TM.GetSqrtRatioAtTick(tick) }

// balances and positions of a strategy
type zzBook struct {
	p      *pool.Pool
	a0, a1 *ui.Int
	ps     *[]Position
}

func (b zzBook) balances() (*ui.Int, *ui.Int) { return b.a0.Clone(), b.a1.Clone() }

func (b zzBook) amounts() (*ui.Int, *ui.Int) {
	t0, t1 := b.a0.Clone(), b.a1.Clone()
	for i := 0; i < len(*b.ps); i++ {
		q := (*b.ps)[i]
		x, y := la.GetAmountsForLiquidity(b.p.SqrtRatioX96, zzAt(q.tickLower), zzAt(q.tickUpper), q.amount)
		t0.Add(t0, x)
		t1.Add(t1, y)
	}
	return t0, t1
}

func (b zzBook) close() (*ui.Int, *ui.Int) {
	for i := 0; i < len(*b.ps); i++ {
		q := (*b.ps)[i]
		b.p.BurnStrategy(q.tickLower, q.tickUpper, q.amount)
		x, y := b.p.CollectStrategy(q.tickLower, q.tickUpper)
		b.a0.Add(b.a0, x)
		b.a1.Add(b.a1, y)
	}
	*b.ps = nil
	return b.balances()
}

func (b zzBook) liquidity(lower, upper int) *ui.Int {
	return la.GetLiquidityForAmount(b.p.SqrtRatioX96, zzAt(lower), zzAt(upper), b.a0, b.a1)
}

func (b zzBook) mint(lower, upper int, l *ui.Int) {
	if l.IsZero() {
		return
	}
	*b.ps = append(*b.ps, Position{amount: l, tickLower: lower, tickUpper: upper})
	x, y := b.p.MintStrategy(lower, upper, l)
	b.a0.Sub(b.a0, x)
	b.a1.Sub(b.a1, y)
}

func (b zzBook) open(lower, upper int) { b.mint(lower, upper, b.liquidity(lower, upper)) }

func (b zzBook) around(tick, width int) (int, int) {
	return tickmath.Round(tick-width, zzSpacing(b.p)), tickmath.Round(tick+width, zzSpacing(b.p))
}

func (b zzBook) above() int { return tickmath.Ceil(b.p.TickCurrent, zzSpacing(b.p)) }
func (b zzBook) below() int { return tickmath.Floor(b.p.TickCurrent, zzSpacing(b.p)) }

// left-over token0 goes above the price, else left-over token1 below it
func (b zzBook) fill(lower, upper int) {
	if !b.a0.IsZero() {
		lower = b.above()
	} else if !b.a1.IsZero() {
		upper = b.below()
	} else {
		return
	}
	if lower < upper {
		b.open(lower, upper)
	}
}

func zzBand(centre, volatility, multiplierX10 *ui.Int) (int, int) {
	width := new(ui.Int).Mul(volatility, multiplierX10)
	width.Rsh(width, 10)
	width.Sqrt(width)
	lower, upper := zzMinTick, zzMaxTick
	from, under := new(ui.Int).SubOverflow(centre, width)
	if !under && !from.Lt(zzMinSqrt()) {
		lower = tickmath.TM.GetTickAtSqrtRatio(from)
	}
	to, over := new(ui.Int).AddOverflow(centre, width)
	if !over && to.Lt(zzMaxSqrt()) {
		upper = tickmath.TM.GetTickAtSqrtRatio(to)
	}
	return lower, upper
}

func zzHistory(n int) *prices.Prices { return prices.NewPrices(n) }

// ---- the whole range

func (s *V2Strategy) zzB() zzBook { return zzBook{s.Pool, s.Amount0, s.Amount1, &s.Positions} }

func zzSpec_V2Strategy_New(a0, a1 *ui.Int, p *pool.Pool) *V2Strategy {
	return &V2Strategy{Amount0: a0.Clone(), Amount1: a1.Clone(), Pool: p.Clone(), Positions: []Position{}}
}
func zzSpec_V2Strategy_Init(s *V2Strategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().balances()
	s.zzB().open(-887270, 887270)
	return x, y
}
func zzSpec_V2Strategy_Rebalance(s *V2Strategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().close()
	s.zzB().open(-887270, 887270)
	return x, y
}

// ---- no provision

func zzSpec_NoProvisionStrategy_New(a0, a1 *ui.Int, p *pool.Pool) *NoProvisionStrategy {
	return &NoProvisionStrategy{Amount0: a0.Clone(), Amount1: a1.Clone(), Pool: p.Clone()}
}
func zzSpec_NoProvisionStrategy_Init(s *NoProvisionStrategy) (*ui.Int, *ui.Int) {
	return s.Amount0.Clone(), s.Amount1.Clone()
}
func zzSpec_NoProvisionStrategy_BurnAll(s *NoProvisionStrategy) (*ui.Int, *ui.Int) {
	return s.Amount0.Clone(), s.Amount1.Clone()
}
func zzSpec_NoProvisionStrategy_GetAmounts(s *NoProvisionStrategy) (*ui.Int, *ui.Int) {
	return s.Amount0.Clone(), s.Amount1.Clone()
}
func zzSpec_NoProvisionStrategy_Rebalance(s *NoProvisionStrategy) (*ui.Int, *ui.Int) { return nil, nil }
func zzSpec_NoProvisionStrategy_MakeSnapshot(s *NoProvisionStrategy)                 {}
func zzSpec_NoProvisionStrategy_GetPool(s *NoProvisionStrategy) *pool.Pool           { return s.Pool }

// ---- a constant interval

func (s *ConstantIntervalStrategy) zzB() zzBook {
	return zzBook{s.Pool, s.Amount0, s.Amount1, &s.Positions}
}

func zzSpec_ConstantIntervalStrategy_New(a0, a1 *ui.Int, p *pool.Pool, width int) *ConstantIntervalStrategy {
	return &ConstantIntervalStrategy{Amount0: a0.Clone(), Amount1: a1.Clone(), Pool: p.Clone(), IntervalWidth: width, Positions: []Position{}}
}
func zzSpec_ConstantIntervalStrategy_Init(s *ConstantIntervalStrategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().balances()
	s.tickLower, s.tickUpper = s.zzB().around(s.Pool.TickCurrent, s.IntervalWidth)
	s.zzB().open(s.tickLower, s.tickUpper)
	return x, y
}
func zzSpec_ConstantIntervalStrategy_Rebalance(s *ConstantIntervalStrategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().close()
	s.zzB().open(s.tickLower, s.tickUpper)
	return x, y
}

// ---- an interval around the current price

func (s *IntervalAroundPriceStrategy) zzB() zzBook {
	return zzBook{s.Pool, s.Amount0, s.Amount1, &s.Positions}
}
func (s *IntervalAroundPriceStrategy) zzSet() {
	s.zzB().open(s.zzB().around(s.Pool.TickCurrent, s.IntervalWidth))
}
func zzSpec_IntervalAroundPriceStrategy_New(a0, a1 *ui.Int, p *pool.Pool, width int) *IntervalAroundPriceStrategy {
	return &IntervalAroundPriceStrategy{Amount0: a0.Clone(), Amount1: a1.Clone(), Pool: p.Clone(), IntervalWidth: width, Positions: []Position{}}
}
func zzSpec_IntervalAroundPriceStrategy_Init(s *IntervalAroundPriceStrategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().balances()
	s.zzSet()
	return x, y
}
func zzSpec_IntervalAroundPriceStrategy_Rebalance(s *IntervalAroundPriceStrategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().close()
	s.zzSet()
	return x, y
}

// ---- two intervals

func (s *TwoIntervalAroundPriceStrategy) zzB() zzBook {
	return zzBook{s.Pool, s.Amount0, s.Amount1, &s.Positions}
}
func (s *TwoIntervalAroundPriceStrategy) zzSet() {
	b := s.zzB()
	b.open(b.around(s.Pool.TickCurrent, s.a))
	if !s.Amount0.IsZero() {
		b.open(b.above(), b.above()+s.b)
	}
	if !s.Amount1.IsZero() {
		b.open(b.below()-s.b, b.below())
	}
}
func zzSpec_TwoIntervalAroundPriceStrategy_New(a0, a1 *ui.Int, p *pool.Pool, a, b int) *TwoIntervalAroundPriceStrategy {
	return &TwoIntervalAroundPriceStrategy{Amount0: a0.Clone(), Amount1: a1.Clone(), Pool: p.Clone(), a: a, b: b, Positions: []Position{}}
}
func zzSpec_TwoIntervalAroundPriceStrategy_Init(s *TwoIntervalAroundPriceStrategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().balances()
	s.zzSet()
	return x, y
}
func zzSpec_TwoIntervalAroundPriceStrategy_Rebalance(s *TwoIntervalAroundPriceStrategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().close()
	s.zzSet()
	return x, y
}

// ---- limit orders

func (s *LimitOrderStrategy) zzB() zzBook {
	return zzBook{s.Pool, s.Amount0, s.Amount1, &s.Positions}
}
func (s *LimitOrderStrategy) zzHalf(lower, upper int) {
	b := s.zzB()
	l := b.liquidity(lower, upper)
	b.mint(lower, upper, new(ui.Int).Div(l, ui.NewInt(2)))
}
func (s *LimitOrderStrategy) zzSet() {
	b := s.zzB()
	b.open(b.around(s.Pool.TickCurrent, s.IntervalWidth))
	if !s.Amount0.IsZero() {
		s.CurrentLimitTick, s.Direction = b.above()+10, true
		s.zzHalf(b.above(), b.above()+10)
	}
	if !s.Amount1.IsZero() {
		s.CurrentLimitTick, s.Direction = b.below()-10, false
		s.zzHalf(b.below()-10, b.below())
	}
}
func zzSpec_LimitOrderStrategy_New(a0, a1 *ui.Int, p *pool.Pool, width int) *LimitOrderStrategy {
	return &LimitOrderStrategy{Amount0: a0.Clone(), Amount1: a1.Clone(), Pool: p.Clone(), IntervalWidth: width, Positions: []Position{}}
}
func zzSpec_LimitOrderStrategy_Init(s *LimitOrderStrategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().balances()
	s.zzSet()
	return x, y
}
func zzSpec_LimitOrderStrategy_Rebalance(s *LimitOrderStrategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().close()
	s.zzSet()
	return x, y
}
func zzSpec_LimitOrderStrategy_GetCurrentLimitTick(s *LimitOrderStrategy) int {
	return s.CurrentLimitTick
}
func zzSpec_LimitOrderStrategy_GetDirection(s *LimitOrderStrategy) bool  { return s.Direction }
func zzSpec_LimitOrderStrategy_GetDirections(s *LimitOrderStrategy) bool { return s.Direction }

// ---- an interval around the average price

func (s *IntervalAroundAverageStrategy) zzB() zzBook {
	return zzBook{s.Pool, s.Amount0, s.Amount1, &s.Positions}
}
func (s *IntervalAroundAverageStrategy) zzSet() {
	tick := tickmath.TM.GetTickAtSqrtRatio(new(ui.Int).Sqrt(s.PriceHistory.Average()))
	s.zzB().open(s.zzB().around(tick, s.IntervalWidth))
}
func zzSpec_IntervalAroundAverageStrategy_New(a0, a1 *ui.Int, p *pool.Pool, width, n int) *IntervalAroundAverageStrategy {
	return &IntervalAroundAverageStrategy{Amount0: a0.Clone(), Amount1: a1.Clone(), Pool: p.Clone(), IntervalWidth: width, Positions: []Position{}, PriceHistory: zzHistory(n)}
}
func zzSpec_IntervalAroundAverageStrategy_Init(s *IntervalAroundAverageStrategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().balances()
	s.zzSet()
	return x, y
}
func zzSpec_IntervalAroundAverageStrategy_Rebalance(s *IntervalAroundAverageStrategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().close()
	s.zzSet()
	return x, y
}

// ---- an interval around the current price after swapping half of the rest

func (s *IntervalAroundPriceAndSwapStrategy) zzB() zzBook {
	return zzBook{s.Pool, s.Amount0, s.Amount1, &s.Positions}
}
func (s *IntervalAroundPriceAndSwapStrategy) zzSet() {
	b := s.zzB()
	lower, upper := b.around(s.Pool.TickCurrent, s.IntervalWidth)
	used0, used1 := la.GetAmountsForLiquidity(s.Pool.SqrtRatioX96, zzAt(lower), zzAt(upper), b.liquidity(lower, upper))
	rest0, rest1 := new(ui.Int).Sub(s.Amount0, used0), new(ui.Int).Sub(s.Amount1, used1)
	half, token := rest1, s.Pool.Token1
	if new(ui.Int).Lsh(rest0, 9).Gt(rest1) {
		half, token = rest0, s.Pool.Token0
	}
	half.Div(half, ui.NewInt(2))
	if half.Sign() > 0 {
		x, y := s.Pool.ExactInputSwap(half, token, new(ui.Int))
		s.Amount0.Sub(s.Amount0, x)
		s.Amount1.Sub(s.Amount1, y)
	}
	b.open(lower, upper)
}
func zzSpec_IntervalAroundPriceAndSwapStrategy_New(a0, a1 *ui.Int, p *pool.Pool, width int) *IntervalAroundPriceAndSwapStrategy {
	return &IntervalAroundPriceAndSwapStrategy{Amount0: a0.Clone(), Amount1: a1.Clone(), Pool: p.Clone(), IntervalWidth: width, Positions: []Position{}}
}
func zzSpec_IntervalAroundPriceAndSwapStrategy_Init(s *IntervalAroundPriceAndSwapStrategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().balances()
	s.zzSet()
	return x, y
}
func zzSpec_IntervalAroundPriceAndSwapStrategy_Rebalance(s *IntervalAroundPriceAndSwapStrategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().close()
	s.zzSet()
	return x, y
}

// ---- Bollinger bands

func (s *BollingerBandsStrategy) zzB() zzBook {
	return zzBook{s.Pool, s.Amount0, s.Amount1, &s.Positions}
}
func (s *BollingerBandsStrategy) zzTicks() (int, int) {
	return zzBand(new(ui.Int).Sqrt(s.PriceHistory.Average()), s.PriceHistory.Volatility(), s.MultiplierX10)
}
func zzSpec_BollingerBandsStrategy_New(a0, a1 *ui.Int, p *pool.Pool, n, multiplier int) *BollingerBandsStrategy {
	return &BollingerBandsStrategy{Amount0: a0.Clone(), Amount1: a1.Clone(), Pool: p.Clone(), Positions: []Position{}, MultiplierX10: ui.NewInt(uint64(multiplier)), PriceHistory: zzHistory(n)}
}
func zzSpec_BollingerBandsStrategy_Init(s *BollingerBandsStrategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().balances()
	s.zzB().open(s.zzTicks())
	return x, y
}
func zzSpec_BollingerBandsStrategy_Rebalance(s *BollingerBandsStrategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().close()
	s.zzB().open(s.zzTicks())
	return x, y
}

// ---- Bollinger bands with the rest on one side

func (s *BollingerBandsFillUpStrategy) zzB() zzBook {
	return zzBook{s.Pool, s.Amount0, s.Amount1, &s.Positions}
}
func (s *BollingerBandsFillUpStrategy) zzTicks() (int, int) {
	return zzBand(new(ui.Int).Sqrt(s.PriceHistory.Average()), s.PriceHistory.Volatility(), s.MultiplierX10)
}
func zzSpec_BollingerBandsFillUpStrategy_New(a0, a1 *ui.Int, p *pool.Pool, n, multiplier int) *BollingerBandsFillUpStrategy {
	return &BollingerBandsFillUpStrategy{Amount0: a0.Clone(), Amount1: a1.Clone(), Pool: p.Clone(), Positions: []Position{}, MultiplierX10: ui.NewInt(uint64(multiplier)), PriceHistory: zzHistory(n)}
}
func zzSpec_BollingerBandsFillUpStrategy_Init(s *BollingerBandsFillUpStrategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().balances()
	s.zzB().open(s.zzTicks())
	return x, y
}
func zzSpec_BollingerBandsFillUpStrategy_Rebalance(s *BollingerBandsFillUpStrategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().close()
	lower, upper := s.zzTicks()
	s.zzB().open(lower, upper)
	if s.Pool.TickCurrent >= lower && s.Pool.TickCurrent <= upper {
		s.zzB().fill(lower, upper)
	}
	return x, y
}

// ---- an interval around the current price with the rest on one side

func (s *FillUpStrategy) zzB() zzBook { return zzBook{s.Pool, s.Amount0, s.Amount1, &s.Positions} }
func (s *FillUpStrategy) zzSet() {
	lower, upper := s.zzB().around(s.Pool.TickCurrent, s.IntervalWidth)
	s.zzB().open(lower, upper)
	s.zzB().fill(lower, upper)
}
func zzSpec_FillUpStrategy_New(a0, a1 *ui.Int, p *pool.Pool, width int) *FillUpStrategy {
	return &FillUpStrategy{Amount0: a0.Clone(), Amount1: a1.Clone(), Pool: p.Clone(), IntervalWidth: width, Positions: []Position{}}
}
func zzSpec_FillUpStrategy_Init(s *FillUpStrategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().balances()
	s.zzSet()
	return x, y
}
func zzSpec_FillUpStrategy_Rebalance(s *FillUpStrategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().close()
	s.zzSet()
	return x, y
}

// ---- a band around the current price

func (s *VolatilitySizedIntervalStrategy) zzB() zzBook {
	return zzBook{s.Pool, s.Amount0, s.Amount1, &s.Positions}
}
func (s *VolatilitySizedIntervalStrategy) zzTicks() (int, int) {
	return zzBand(s.Pool.SqrtRatioX96, s.PriceHistory.Volatility(), s.MultiplierX10)
}
func zzSpec_VolatilitySizedIntervalStrategy_New(a0, a1 *ui.Int, p *pool.Pool, n, multiplier int) *VolatilitySizedIntervalStrategy {
	return &VolatilitySizedIntervalStrategy{Amount0: a0.Clone(), Amount1: a1.Clone(), Pool: p.Clone(), Positions: []Position{}, MultiplierX10: ui.NewInt(uint64(multiplier)), PriceHistory: zzHistory(n)}
}
func zzSpec_VolatilitySizedIntervalStrategy_Init(s *VolatilitySizedIntervalStrategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().balances()
	s.zzB().open(s.zzTicks())
	return x, y
}
func zzSpec_VolatilitySizedIntervalStrategy_Rebalance(s *VolatilitySizedIntervalStrategy) (*ui.Int, *ui.Int) {
	x, y := s.zzB().close()
	s.zzB().open(s.zzTicks())
	return x, y
}
