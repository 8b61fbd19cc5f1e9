package main

import (
	"encoding/json"
	"io/ioutil"
	"math"
	"math/big"
	"os"
	"path"
	"sort"
	"strconv"
	"sync"
	"uniswap-simulator/lib/executor"
	"uniswap-simulator/lib/result"
	ent "uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
)

func zzFloat(x *ui.Int) float64 {
	f, _ := new(big.Float).SetInt(x.ToBig()).Float64()
	return f
}

func zzSpec_getReturns(v []*ui.Int) []float64 {
	r := []float64{}
	for i := 0; i+1 < len(v); i++ {
		r = append(r, math.Log(zzFloat(v[i+1])/zzFloat(v[i])))
	}
	return r
}

func zzSpec_calculateMaximumDrawdown(v []*ui.Int) float64 {
	if len(v) < 2 {
		return 0
	}
	high, low := zzFloat(v[0]), 0.0
	for i := 0; i < len(v); i++ {
		x := zzFloat(v[i])
		high = math.Max(high, x)
		low = math.Min(low, (x-high)/high)
	}
	return low
}

func zzSpec_calculateDownDeviation(v []*ui.Int) float64 {
	if len(v) < 3 {
		return 0
	}
	r := getReturns(v)
	sum := 0.0
	for i := 0; i < len(r); i++ {
		if r[i] < 0 {
			sum += r[i] * r[i]
		}
	}
	return math.Sqrt(sum / float64(len(r)))
}

func zzSpec_calculateVar(v []*ui.Int) float64 {
	if len(v) < 3 {
		return 0
	}
	r := getReturns(v)
	sort.Float64s(r)
	return r[len(r)/20]
}

func zzSpec_calculateStd(v []*ui.Int) float64 {
	if len(v) < 3 {
		return 0
	}
	r := getReturns(v)
	squares, sum := 0.0, 0.0
	for i := 0; i < len(r); i++ {
		squares += r[i] * r[i]
	}
	for i := 0; i < len(r); i++ {
		sum += r[i]
	}
	n := len(r)
	variance := squares/float64(n-1) - sum*sum/float64(n*(n-1))
	if variance < 0 {
		variance = 0
	}
	return math.Sqrt(variance)
}

func zzSave() (s result.Save) { return }

func zzSpec_runAndAppend(wg *sync.WaitGroup, execution *executor.Execution, i, mul, duration, updateInterval int, results []result.RunResult) {
	defer wg.Done()
	execution.Run()
	var hours, days, weeks []*ui.Int
	for k := 0; k < len(execution.AmountUSDSnapshots); k++ {
		hours = append(hours, execution.AmountUSDSnapshots[k].Clone())
		if k%24 == 0 {
			days = append(days, execution.AmountUSDSnapshots[k].Clone())
		}
		if k%168 == 0 {
			weeks = append(weeks, execution.AmountUSDSnapshots[k].Clone())
		}
	}
	results[i] = zzReport(execution, mul, duration, updateInterval,
		calculateStd(hours), calculateStd(days), calculateStd(weeks),
		calculateDownDeviation(hours), calculateDownDeviation(days), calculateDownDeviation(weeks),
		calculateMaximumDrawdown(hours),
		calculateVar(hours), calculateVar(days), calculateVar(weeks))
}

func zzSpec_createResult(execution *executor.Execution, mul, duration, updateInterval int, sh, sd, sw, dh, dd, dw, draw, vh, vd, vw float64) result.RunResult {
	return zzReport(execution, mul, duration, updateInterval, sh, sd, sw, dh, dd, dw, draw, vh, vd, vw)
}

func zzReport(execution *executor.Execution, mul, duration, updateInterval int, sh, sd, sw, dh, dd, dw, draw, vh, vd, vw float64) result.RunResult {
	v := execution.AmountUSDSnapshots
	last := v[len(v)-1]
	from, to := zzFloat(v[0]), zzFloat(last)
	return result.RunResult{
		UpdateInterval:          updateInterval,
		MultiplierX10:           mul,
		HistoryWindow:           duration,
		Return:                  (to - from) / from,
		EndAmount:               last.ToBig().String(),
		MaxDrawdown:             draw,
		StandardDeviationHourly: sh,
		StandardDeviationDaily:  sd,
		StandardDeviationWeekly: sw,
		DownwardDeviationHourly: dh,
		DownwardDeviationDaily:  dd,
		DownwardDeviationWeekly: dw,
		VaR95Hourly:             vh,
		VaR95Daily:              vd,
		VaR95Weekly:             vw,
	}
}

func zzSpec_stringToUint256(s string) *ui.Int {
	b := new(big.Int)
	b.SetString(s, 10)
	x, _ := ui.FromBig(b)
	return x
}

func zzSpec_getTransactions() []ent.Transaction {
	file, err := os.Open(path.Join("data", "transactions_insample.json"))
	if err != nil {
		panic(err)
	}
	text, err := ioutil.ReadAll(file)
	if err != nil {
		panic(err)
	}
	var in []ent.TransactionInput
	if err := json.Unmarshal(text, &in); err != nil {
		panic(err)
	}
	var out []ent.Transaction
	for i := 0; i < len(in); i++ {
		t := in[i]
		var x ent.Transaction
		x.Type = t.Type
		x.ID = t.ID
		x.Timestamp = t.Timestamp
		x.Tick, x.TickLower, x.TickUpper = t.Tick, t.TickLower, t.TickUpper
		x.Amount = stringToUint256(t.Amount)
		x.Amount0 = stringToUint256(t.Amount0)
		x.Amount1 = stringToUint256(t.Amount1)
		x.SqrtPriceX96 = stringToUint256(t.SqrtPriceX96)
		x.UseX96, _ = strconv.ParseBool(t.UseX96)
		out = append(out, x)
	}
	return out
}
