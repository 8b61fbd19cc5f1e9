package fullmath

import ui "uniswap-simulator/uint256"

// floor(a*b/d) of the 512-bit product, low 256 bits; zero when d is zero.
func zzSpec_MulDiv(a, b, d *ui.Int) *ui.Int {
	z := new(ui.Int)
	if a.IsZero() || b.IsZero() {
		return z
	}
	p := ui.Umul(a, b)
	var q [5]uint64
	ui.Udivrem(q[:], p[:], d)
	z[0], z[1], z[2], z[3] = q[0], q[1], q[2], q[3]
	return z
}

// the same quotient, one more when the division leaves a remainder.
func zzSpec_MulDivRoundingUp(a, b, d *ui.Int) *ui.Int {
	z := new(ui.Int)
	if a.IsZero() || b.IsZero() {
		return z
	}
	p := ui.Umul(a, b)
	var q [5]uint64
	r := ui.Udivrem(q[:], p[:], d)
	z[0], z[1], z[2], z[3] = q[0], q[1], q[2], q[3]
	if !r.IsZero() {
		z.AddUint64(z, 1)
	}
	return z
}

// names under which other specifications use the two operations
func ZZMulDiv(a, b, d *ui.Int) *ui.Int   { return zzSpec_MulDiv(a, b, d) }
func ZZMulDivUp(a, b, d *ui.Int) *ui.Int { return zzSpec_MulDivRoundingUp(a, b, d) }
