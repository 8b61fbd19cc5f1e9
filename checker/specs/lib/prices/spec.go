package prices

import (
	"math/big"
	ui "uniswap-simulator/uint256"
)

func zzSpec_NewPrices(n int) *Prices {
	p := make([]*ui.Int, n)
	for i := 0; i < n; i++ {
		p[i] = new(ui.Int)
	}
	return &Prices{prices: p, index: 0, length: n}
}

func zzSpec_Add(p *Prices, price *ui.Int) {
	square, tooBig := new(ui.Int).MulOverflow(price, price)
	if tooBig || !new(ui.Int).Rsh(square, 230).IsZero() {
		panic("price")
	}
	at := p.index
	p.index = (at + 1) % p.length
	p.prices[at] = square
}

func zzSpec_Average(p *Prices) *ui.Int {
	sum := new(ui.Int)
	for i := 0; i < len(p.prices); i++ {
		sum.Add(sum, p.prices[i])
	}
	return sum.Div(sum, ui.NewInt(uint64(p.length)))
}

func zzSpec_Volatility(p *Prices) *ui.Int {
	average := zzSpec_Average(p)
	sum := new(big.Int)
	for i := 0; i < len(p.prices); i++ {
		d := new(ui.Int).Sub(p.prices[i], average)
		d.Abs(d)
		b := d.ToBig()
		sum.Add(sum, new(big.Int).Mul(b, b))
	}
	r, _ := ui.FromBig(sum.Sqrt(sum.Div(sum, big.NewInt(int64(p.length-1)))))
	return r
}
