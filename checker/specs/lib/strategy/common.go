package strategy

import (
	"uniswap-simulator/lib/pool"
	ui "uniswap-simulator/uint256"
)

func zzSpec_V2Strategy_BurnAll(s *V2Strategy) (*ui.Int, *ui.Int)    { return s.zzB().close() }
func zzSpec_V2Strategy_GetAmounts(s *V2Strategy) (*ui.Int, *ui.Int) { return s.zzB().amounts() }
func zzSpec_V2Strategy_GetPool(s *V2Strategy) *pool.Pool            { return s.Pool }
func zzSpec_V2Strategy_MakeSnapshot(s *V2Strategy)                  {}

func zzSpec_ConstantIntervalStrategy_BurnAll(s *ConstantIntervalStrategy) (*ui.Int, *ui.Int) {
	return s.zzB().close()
}
func zzSpec_ConstantIntervalStrategy_GetAmounts(s *ConstantIntervalStrategy) (*ui.Int, *ui.Int) {
	return s.zzB().amounts()
}
func zzSpec_ConstantIntervalStrategy_GetPool(s *ConstantIntervalStrategy) *pool.Pool { return s.Pool }
func zzSpec_ConstantIntervalStrategy_MakeSnapshot(s *ConstantIntervalStrategy)       {}

func zzSpec_IntervalAroundPriceStrategy_BurnAll(s *IntervalAroundPriceStrategy) (*ui.Int, *ui.Int) {
	return s.zzB().close()
}
func zzSpec_IntervalAroundPriceStrategy_GetAmounts(s *IntervalAroundPriceStrategy) (*ui.Int, *ui.Int) {
	return s.zzB().amounts()
}
func zzSpec_IntervalAroundPriceStrategy_GetPool(s *IntervalAroundPriceStrategy) *pool.Pool {
	return s.Pool
}
func zzSpec_IntervalAroundPriceStrategy_MakeSnapshot(s *IntervalAroundPriceStrategy) {}

func zzSpec_TwoIntervalAroundPriceStrategy_BurnAll(s *TwoIntervalAroundPriceStrategy) (*ui.Int, *ui.Int) {
	return s.zzB().close()
}
func zzSpec_TwoIntervalAroundPriceStrategy_GetAmounts(s *TwoIntervalAroundPriceStrategy) (*ui.Int, *ui.Int) {
	return s.zzB().amounts()
}
func zzSpec_TwoIntervalAroundPriceStrategy_GetPool(s *TwoIntervalAroundPriceStrategy) *pool.Pool {
	return s.Pool
}
func zzSpec_TwoIntervalAroundPriceStrategy_MakeSnapshot(s *TwoIntervalAroundPriceStrategy) {}

func zzSpec_LimitOrderStrategy_BurnAll(s *LimitOrderStrategy) (*ui.Int, *ui.Int) {
	return s.zzB().close()
}
func zzSpec_LimitOrderStrategy_GetAmounts(s *LimitOrderStrategy) (*ui.Int, *ui.Int) {
	return s.zzB().amounts()
}
func zzSpec_LimitOrderStrategy_GetPool(s *LimitOrderStrategy) *pool.Pool { return s.Pool }
func zzSpec_LimitOrderStrategy_MakeSnapshot(s *LimitOrderStrategy)       {}

func zzSpec_IntervalAroundAverageStrategy_BurnAll(s *IntervalAroundAverageStrategy) (*ui.Int, *ui.Int) {
	return s.zzB().close()
}
func zzSpec_IntervalAroundAverageStrategy_GetAmounts(s *IntervalAroundAverageStrategy) (*ui.Int, *ui.Int) {
	return s.zzB().amounts()
}
func zzSpec_IntervalAroundAverageStrategy_GetPool(s *IntervalAroundAverageStrategy) *pool.Pool {
	return s.Pool
}
func zzSpec_IntervalAroundAverageStrategy_MakeSnapshot(s *IntervalAroundAverageStrategy) {
	s.PriceHistory.Add(s.Pool.SqrtRatioX96)
}

func zzSpec_IntervalAroundPriceAndSwapStrategy_BurnAll(s *IntervalAroundPriceAndSwapStrategy) (*ui.Int, *ui.Int) {
	return s.zzB().close()
}
func zzSpec_IntervalAroundPriceAndSwapStrategy_GetAmounts(s *IntervalAroundPriceAndSwapStrategy) (*ui.Int, *ui.Int) {
	return s.zzB().amounts()
}
func zzSpec_IntervalAroundPriceAndSwapStrategy_GetPool(s *IntervalAroundPriceAndSwapStrategy) *pool.Pool {
	return s.Pool
}
func zzSpec_IntervalAroundPriceAndSwapStrategy_MakeSnapshot(s *IntervalAroundPriceAndSwapStrategy) {}

func zzSpec_BollingerBandsStrategy_BurnAll(s *BollingerBandsStrategy) (*ui.Int, *ui.Int) {
	return s.zzB().close()
}
func zzSpec_BollingerBandsStrategy_GetAmounts(s *BollingerBandsStrategy) (*ui.Int, *ui.Int) {
	return s.zzB().amounts()
}
func zzSpec_BollingerBandsStrategy_GetPool(s *BollingerBandsStrategy) *pool.Pool { return s.Pool }
func zzSpec_BollingerBandsStrategy_MakeSnapshot(s *BollingerBandsStrategy) {
	s.PriceHistory.Add(s.Pool.SqrtRatioX96)
}

func zzSpec_BollingerBandsFillUpStrategy_BurnAll(s *BollingerBandsFillUpStrategy) (*ui.Int, *ui.Int) {
	return s.zzB().close()
}
func zzSpec_BollingerBandsFillUpStrategy_GetAmounts(s *BollingerBandsFillUpStrategy) (*ui.Int, *ui.Int) {
	return s.zzB().amounts()
}
func zzSpec_BollingerBandsFillUpStrategy_GetPool(s *BollingerBandsFillUpStrategy) *pool.Pool {
	return s.Pool
}
func zzSpec_BollingerBandsFillUpStrategy_MakeSnapshot(s *BollingerBandsFillUpStrategy) {
	s.PriceHistory.Add(s.Pool.SqrtRatioX96)
}

func zzSpec_FillUpStrategy_BurnAll(s *FillUpStrategy) (*ui.Int, *ui.Int)    { return s.zzB().close() }
func zzSpec_FillUpStrategy_GetAmounts(s *FillUpStrategy) (*ui.Int, *ui.Int) { return s.zzB().amounts() }
func zzSpec_FillUpStrategy_GetPool(s *FillUpStrategy) *pool.Pool            { return s.Pool }
func zzSpec_FillUpStrategy_MakeSnapshot(s *FillUpStrategy)                  {}

func zzSpec_VolatilitySizedIntervalStrategy_BurnAll(s *VolatilitySizedIntervalStrategy) (*ui.Int, *ui.Int) {
	return s.zzB().close()
}
func zzSpec_VolatilitySizedIntervalStrategy_GetAmounts(s *VolatilitySizedIntervalStrategy) (*ui.Int, *ui.Int) {
	return s.zzB().amounts()
}
func zzSpec_VolatilitySizedIntervalStrategy_GetPool(s *VolatilitySizedIntervalStrategy) *pool.Pool {
	return s.Pool
}
func zzSpec_VolatilitySizedIntervalStrategy_MakeSnapshot(s *VolatilitySizedIntervalStrategy) {
	s.PriceHistory.Add(s.Pool.SqrtRatioX96)
}
