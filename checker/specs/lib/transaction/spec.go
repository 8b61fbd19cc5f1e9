package transaction

import (
	"encoding/json"
	"strconv"
	ui "uniswap-simulator/uint256"
)

func zzDecimal(x *ui.Int) string { return x.SToBig().String() }

func zzSpec_MarshalJSON(t Transaction) ([]byte, error) {
	r := TransactionInput{Type: t.Type, ID: t.ID, Timestamp: t.Timestamp, Amount0: zzDecimal(t.Amount0), Amount1: zzDecimal(t.Amount1)}
	switch t.Type {
	case "Swap":
		r.SqrtPriceX96 = zzDecimal(t.SqrtPriceX96)
		r.Tick = t.Tick
		r.UseX96 = strconv.FormatBool(t.UseX96)
	case "Mint", "Burn":
		r.Amount = zzDecimal(t.Amount)
		r.TickLower, r.TickUpper = t.TickLower, t.TickUpper
	case "Flash":
	default:
		panic("unknown type")
	}
	return json.Marshal(&r)
}
