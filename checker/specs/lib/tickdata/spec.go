package tickdata

import (
	"sort"
	ui "uniswap-simulator/uint256"
)

// number of ticks below index
func zzBelow(t *TickData, index int) int {
	return sort.Search(len(t.ticks), func(i int) bool { return t.ticks[i].Index >= index })
}

// number of ticks at or below index
func zzUpTo(t *TickData, index int) int {
	return sort.Search(len(t.ticks), func(i int) bool { return t.ticks[i].Index > index })
}

func zzSpec_binarySearch(t *TickData, tick int) int {
	if zzUpTo(t, tick) == 0 {
		panic("below the smallest")
	}
	return zzUpTo(t, tick) - 1
}

func zzSpec_GetTick(t *TickData, index int) Tick {
	if zzUpTo(t, index) == zzBelow(t, index) {
		panic("no such tick")
	}
	return t.ticks[zzBelow(t, index)]
}

func zzSpec_Cross(t *TickData, tick int, global0, global1 *ui.Int) *ui.Int {
	info := zzSpec_GetTick(t, tick)
	info.FeeGrowthOutside0X128.Sub(global0, info.FeeGrowthOutside0X128)
	info.FeeGrowthOutside1X128.Sub(global1, info.FeeGrowthOutside1X128)
	return info.LiquidityNet
}

func zzSpec_ClearTick(t *TickData, index int) {
	k := zzBelow(t, index)
	if k == zzUpTo(t, index) {
		return
	}
	rest := make([]Tick, 0)
	rest = append(rest, t.ticks[:k]...)
	rest = append(rest, t.ticks[k+1:]...)
	t.ticks = rest
}

func zzSpec_UpdateTick(t *TickData, index, current int, delta, global0, global1 *ui.Int, upper bool) bool {
	k := zzBelow(t, index)
	net := new(ui.Int).Set(delta)
	if upper {
		net.Neg(net)
	}
	if k < zzUpTo(t, index) {
		x := t.ticks[k]
		x.LiquidityNet.Add(x.LiquidityNet, net)
		x.LiquidityGross.Add(x.LiquidityGross, delta)
		return x.LiquidityGross.IsZero()
	}
	x := Tick{Index: index, LiquidityNet: net, LiquidityGross: delta.Clone(),
		FeeGrowthOutside0X128: new(ui.Int), FeeGrowthOutside1X128: new(ui.Int)}
	if index <= current {
		x.FeeGrowthOutside0X128.Set(global0)
		x.FeeGrowthOutside1X128.Set(global1)
	}
	grown := make([]Tick, 0)
	grown = append(grown, t.ticks[:k]...)
	grown = append(grown, x)
	grown = append(grown, t.ticks[k:]...)
	t.ticks = grown
	return false
}

func zzBeyond(outside, global *ui.Int, onThisSide bool) *ui.Int {
	if onThisSide {
		return outside.Clone()
	}
	return new(ui.Int).Sub(global, outside)
}

func zzSpec_GetFeeGrowthInside(t *TickData, lower, upper, current int, global0, global1 *ui.Int) (inside0, inside1 *ui.Int) {
	lo, up := zzSpec_GetTick(t, lower), zzSpec_GetTick(t, upper)
	below0 := zzBeyond(lo.FeeGrowthOutside0X128, global0, lower <= current)
	below1 := zzBeyond(lo.FeeGrowthOutside1X128, global1, lower <= current)
	above0 := zzBeyond(up.FeeGrowthOutside0X128, global0, current < upper)
	above1 := zzBeyond(up.FeeGrowthOutside1X128, global1, current < upper)
	inside0 = new(ui.Int).Sub(global0, new(ui.Int).Add(below0, above0))
	inside1 = new(ui.Int).Sub(global1, new(ui.Int).Add(below1, above1))
	return
}

func zzFloorDiv(x, y int) int {
	q := x / y
	if x < 0 && x%y != 0 {
		q--
	}
	return q
}

func zzSpec_NextInitializedTickWithinOneWord(t *TickData, tick int, lte bool) (int, bool) {
	if len(t.ticks) == 0 {
		panic("no ticks")
	}
	compressed := zzFloorDiv(tick, t.tickSpacing)
	k := zzUpTo(t, tick)
	if lte {
		bound := compressed >> 8 << 8 * t.tickSpacing
		if k == 0 {
			return bound, false
		}
		if next := t.ticks[k-1].Index; next >= bound {
			return next, true
		}
		return bound, false
	}
	bound := ((compressed+1)>>8<<8 + 255) * t.tickSpacing
	if k == len(t.ticks) {
		return bound, false
	}
	if next := t.ticks[k].Index; next <= bound {
		return next, true
	}
	return bound, false
}

func zzSpec_NewTickData(spacing int) *TickData {
	return &TickData{tickSpacing: spacing}
}

func zzSpec_Clone(t *TickData) *TickData {
	n := new(TickData)
	n.tickSpacing = t.tickSpacing
	n.ticks = make([]Tick, 0)
	for _, x := range t.ticks {
		n.ticks = append(n.ticks, Tick{x.Index, x.LiquidityNet.Clone(), x.LiquidityGross.Clone(), x.FeeGrowthOutside0X128.Clone(), x.FeeGrowthOutside1X128.Clone()})
	}
	return n
}
