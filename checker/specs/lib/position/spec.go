package position

import (
	fm "uniswap-simulator/lib/fullmath"
	ui "uniswap-simulator/uint256"
)

func zzSpec_NewPosition() *Info {
	return &Info{new(ui.Int), new(ui.Int), new(ui.Int), new(ui.Int), new(ui.Int)}
}

func zzSpec_Clone(i *Info) *Info {
	return &Info{
		Liquidity:                i.Liquidity.Clone(),
		FeeGrowthInside0LastX128: i.FeeGrowthInside0LastX128.Clone(),
		FeeGrowthInside1LastX128: i.FeeGrowthInside1LastX128.Clone(),
		TokensOwed0:              i.TokensOwed0.Clone(),
		TokensOwed1:              i.TokensOwed1.Clone(),
	}
}

// what the liquidity earned while the growth inside went from last to now
func zzEarned(liquidity, last, now *ui.Int) *ui.Int {
	return fm.ZZMulDiv(new(ui.Int).Sub(now, last), liquidity, new(ui.Int).Lsh(ui.NewInt(1), 128))
}

func ZZSpec_Update(i *Info, delta, inside0, inside1 *ui.Int) {
	i.TokensOwed0 = new(ui.Int).Add(i.TokensOwed0, zzEarned(i.Liquidity, i.FeeGrowthInside0LastX128, inside0))
	i.TokensOwed1 = new(ui.Int).Add(i.TokensOwed1, zzEarned(i.Liquidity, i.FeeGrowthInside1LastX128, inside1))
	i.FeeGrowthInside0LastX128 = inside0
	i.FeeGrowthInside1LastX128 = inside1
	i.Liquidity = new(ui.Int).Add(i.Liquidity, delta)
}
