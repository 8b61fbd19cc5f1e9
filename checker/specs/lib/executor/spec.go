package executor

import (
	"math"
	cons "uniswap-simulator/lib/constants"
	"uniswap-simulator/lib/fullmath"
	strat "uniswap-simulator/lib/strategy"
	ent "uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
)

func zzSpec_CreateExecution(strategy strat.Strategy, startTime, endTime, updateInterval, snapShotInterval, priceSnapshotInterval int, transactions []ent.Transaction) *Execution {
	return &Execution{
		Strategy:                strategy,
		StartTime:               startTime,
		EndTime:                 endTime,
		UpdateInterval:          updateInterval,
		SnapShotInterval:        snapShotInterval,
		PricesSnapshotsInterval: priceSnapshotInterval,
		AmountUSDSnapshots:      []*ui.Int{},
		Transactions:            transactions,
	}
}

// value of both amounts in token0 at the current price
func zzValue(s strat.Strategy, a0, a1 *ui.Int) *ui.Int {
	p := s.GetPool().SqrtRatioX96
	return new(ui.Int).Add(a0, fullmath.MulDiv(a1, cons.Q192, new(ui.Int).Mul(p, p)))
}

func zzSpec_Run(e *Execution) {
	s := e.Strategy
	running := false
	rebalance, snapshot, prices := math.MaxInt64, math.MaxInt64, 0
	for i := 0; i < len(e.Transactions); i++ {
		t := e.Transactions[i]
		if t.Timestamp > e.EndTime {
			break
		}
		if !running && t.Timestamp >= e.StartTime {
			a0, a1 := s.Init()
			e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, zzValue(s, a0, a1))
			running = true
			rebalance = t.Timestamp + e.UpdateInterval
			snapshot = t.Timestamp + e.SnapShotInterval
		}
		if t.Timestamp > prices {
			prices += e.PricesSnapshotsInterval
			s.MakeSnapshot()
		}
		if t.Timestamp >= snapshot {
			snapshot += e.SnapShotInterval
			a0, a1 := s.GetAmounts()
			e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, zzValue(s, a0, a1))
		}
		if t.Timestamp >= rebalance {
			rebalance += e.UpdateInterval
			s.Rebalance()
		}
		p := s.GetPool()
		if t.Type == "Mint" {
			p.Mint(t.TickLower, t.TickUpper, t.Amount)
		} else if t.Type == "Burn" {
			p.Burn(t.TickLower, t.TickUpper, t.Amount)
		} else if t.Type == "Flash" {
			p.Flash(t.Amount0, t.Amount1)
		} else if t.Type == "Swap" {
			if t.Amount0.Sgt(ui.NewInt(0)) {
				p.ExactInputSwap(t.Amount0, p.Token0, ui.NewInt(0))
			} else if t.Amount1.Sgt(ui.NewInt(0)) {
				p.ExactInputSwap(t.Amount1, p.Token1, ui.NewInt(0))
			}
		}
	}
	a0, a1 := s.BurnAll()
	e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, zzValue(s, a0, a1))
}
