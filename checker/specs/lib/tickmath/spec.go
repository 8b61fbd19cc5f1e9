package tickmath

import (
	"math"
	"sort"
	ui "uniswap-simulator/uint256"
)

// the price factors sqrt(1.0001)^-(2^i) in Q128
var zzFactors = [20]string{
	"0xfffcb933bd6fad37aa2d162d1a594001",
	"0xfff97272373d413259a46990580e213a",
	"0xfff2e50f5f656932ef12357cf3c7fdcc",
	"0xffe5caca7e10e4e61c3624eaa0941cd0",
	"0xffcb9843d60f6159c9db58835c926644",
	"0xff973b41fa98c081472e6896dfb254c0",
	"0xff2ea16466c96a3843ec78b326b52861",
	"0xfe5dee046a99a2a811c461f1969c3053",
	"0xfcbe86c7900a88aedcffc83b479aa3a4",
	"0xf987a7253ac413176f2b074cf7815e54",
	"0xf3392b0822b70005940c7a398e4b70f3",
	"0xe7159475a2c29b7443b29c7fa6e889d9",
	"0xd097f3bdfd2022b8845ad8f792aa5825",
	"0xa9f746462d870fdf8a65dc1f90e061e5",
	"0x70d869a156d2a1b890bb3df62baf32f7",
	"0x31be135f97d08fd981231505542fcfa6",
	"0x9aa508b5b7a84e1c677de54f3e99bc9",
	"0x5d6af8dedb81196699c329225ee604",
	"0x2216e584f5fa1ea926041bedfe98",
	"0x48a170391f7dc42444e8fa2",
}

func zzPriceAt(tick int) *ui.Int {
	a := tick
	if a < 0 {
		a = -a
	}
	r := new(ui.Int).Lsh(ui.NewInt(1), 128)
	for i := 0; i < 20; i++ {
		if a&(1<<uint(i)) != 0 {
			f, _ := ui.FromHex(zzFactors[i])
			if i == 0 {
				r = f
			} else {
				r = new(ui.Int).Rsh(new(ui.Int).Mul(r, f), 128)
			}
		}
	}
	if tick > 0 {
		r = new(ui.Int).Div(new(ui.Int).Not(ui.NewInt(0)), r)
	}
	q := new(ui.Int).Rsh(r, 32)
	if new(ui.Int).SMod(r, ui.NewInt(1<<32)).Sign() > 0 {
		q.Add(q, ui.NewInt(1))
	}
	return q
}

// what the code gives for a tick, by table
func zzCode_PriceAt(tick int) *ui.Int { return TM.GetSqrtRatioAtTick(tick) }

func zzSpec_GetSqrtRatioAtTick(t *TickMath, tick int) *ui.Int {
	return t.ticks[tick+887272].Clone()
}

func zzSpec_GetTickAtSqrtRatio(t *TickMath, price *ui.Int) int {
	max, _ := ui.FromHex("0xfffd8963efd1fc6a506488495d951d5263988d26")
	if price.Lt(ui.NewInt(4295128739)) || !price.Lt(max) {
		panic("price")
	}
	k := sort.Search(1774545, func(i int) bool { return t.ticks[i].Gt(price) })
	if k > 0 {
		k--
	}
	return k - 887272
}

func zzSpec_Round(x, unit int) int { return int(math.Round(float64(x)/float64(unit)) * float64(unit)) }
func zzSpec_Ceil(x, unit int) int  { return int(math.Ceil(float64(x)/float64(unit)) * float64(unit)) }
func zzSpec_Floor(x, unit int) int { return int(math.Floor(float64(x)/float64(unit)) * float64(unit)) }
