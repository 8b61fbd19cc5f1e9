package uint256

import (
	"encoding/binary"
	"math/bits"
)

// Reference definitions at the level of 64-bit words, least significant first.

func zzSet(z *Int, w [4]uint64) *Int {
	z[0], z[1], z[2], z[3] = w[0], w[1], w[2], w[3]
	return z
}

func zzAdd(x, y *Int) (w [4]uint64, c uint64) {
	for i := 0; i < 4; i++ {
		w[i], c = bits.Add64(x[i], y[i], c)
	}
	return
}

func zzSub(x, y *Int) (w [4]uint64, b uint64) {
	for i := 0; i < 4; i++ {
		w[i], b = bits.Sub64(x[i], y[i], b)
	}
	return
}

func zzLess(x, y *Int) bool {
	for i := 3; i >= 0; i-- {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return false
}

func zzSame(x, y *Int) bool {
	return x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3]
}

func zzNeg(x *Int) bool { return x[3]>>63 == 1 }

func zzZero(x *Int) bool { return x[0] == 0 && x[1] == 0 && x[2] == 0 && x[3] == 0 }

func zzSmall(x *Int) bool { return x[1] == 0 && x[2] == 0 && x[3] == 0 }

func zzMinus(x *Int) [4]uint64 {
	w, _ := zzSub(new(Int), x)
	return w
}

func zzSpec_NewInt(val uint64) *Int          { return &Int{val, 0, 0, 0} }
func zzSpec_Clone(z *Int) *Int               { return &Int{z[0], z[1], z[2], z[3]} }
func zzSpec_Set(z, x *Int) *Int              { return zzSet(z, *x) }
func zzSpec_Clear(z *Int) *Int               { return zzSet(z, [4]uint64{}) }
func zzSpec_SetOne(z *Int) *Int              { return zzSet(z, [4]uint64{1}) }
func zzSpec_SetUint64(z *Int, x uint64) *Int { return zzSet(z, [4]uint64{x}) }
func zzSpec_SetAllOne(z *Int) *Int {
	m := ^uint64(0)
	return zzSet(z, [4]uint64{m, m, m, m})
}
func zzSpec_Uint64(z *Int) uint64                     { return z[0] }
func zzSpec_Uint64WithOverflow(z *Int) (uint64, bool) { return z[0], !zzSmall(z) }

func zzSpec_Add(z, x, y *Int) *Int {
	w, _ := zzAdd(x, y)
	return zzSet(z, w)
}
func zzSpec_AddOverflow(z, x, y *Int) (*Int, bool) {
	w, c := zzAdd(x, y)
	return zzSet(z, w), c == 1
}
func zzSpec_AddUint64(z, x *Int, y uint64) *Int {
	w, _ := zzAdd(x, &Int{y})
	return zzSet(z, w)
}
func zzSpec_Sub(z, x, y *Int) *Int {
	w, _ := zzSub(x, y)
	return zzSet(z, w)
}
func zzSpec_SubOverflow(z, x, y *Int) (*Int, bool) {
	w, _ := zzSub(x, y)
	under := zzLess(x, y)
	return zzSet(z, w), under
}
func zzSpec_SubUint64(z, x *Int, y uint64) *Int {
	w, _ := zzSub(x, &Int{y})
	return zzSet(z, w)
}
func zzSpec_Neg(z, x *Int) *Int { return zzSet(z, zzMinus(x)) }
func zzSpec_Abs(z, x *Int) *Int {
	if zzNeg(x) {
		return zzSet(z, zzMinus(x))
	}
	return zzSet(z, *x)
}

func zzSpec_Not(z, x *Int) *Int { return zzSet(z, [4]uint64{^x[0], ^x[1], ^x[2], ^x[3]}) }
func zzSpec_And(z, x, y *Int) *Int {
	return zzSet(z, [4]uint64{x[0] & y[0], x[1] & y[1], x[2] & y[2], x[3] & y[3]})
}
func zzSpec_Or(z, x, y *Int) *Int {
	return zzSet(z, [4]uint64{x[0] | y[0], x[1] | y[1], x[2] | y[2], x[3] | y[3]})
}
func zzSpec_Xor(z, x, y *Int) *Int {
	return zzSet(z, [4]uint64{x[0] ^ y[0], x[1] ^ y[1], x[2] ^ y[2], x[3] ^ y[3]})
}

func zzSpec_IsZero(z *Int) bool             { return zzZero(z) }
func zzSpec_IsUint64(z *Int) bool           { return zzSmall(z) }
func zzSpec_Eq(z, x *Int) bool              { return zzSame(z, x) }
func zzSpec_Lt(z, x *Int) bool              { return zzLess(z, x) }
func zzSpec_Gt(z, x *Int) bool              { return zzLess(x, z) }
func zzSpec_LtUint64(z *Int, n uint64) bool { return zzSmall(z) && z[0] < n }
func zzSpec_GtUint64(z *Int, n uint64) bool { return !zzSmall(z) || z[0] > n }
func zzSpec_Sign(z *Int) int {
	if zzZero(z) {
		return 0
	}
	if zzNeg(z) {
		return -1
	}
	return 1
}
func zzSpec_Slt(z, x *Int) bool {
	if zzNeg(z) != zzNeg(x) {
		return zzNeg(z)
	}
	return zzLess(z, x)
}
func zzSpec_Sgt(z, x *Int) bool { return zzSpec_Slt(x, z) }
func zzSpec_Cmp(z, x *Int) int {
	if zzSame(z, x) {
		return 0
	}
	if zzLess(z, x) {
		return -1
	}
	return 1
}

func zzWord(x *Int, i int, fill uint64) uint64 {
	if i < 0 {
		return 0
	}
	if i > 3 {
		return fill
	}
	return x[i]
}

func zzSpec_Lsh(z, x *Int, n uint) *Int {
	if n >= 256 {
		return zzSet(z, [4]uint64{})
	}
	var w [4]uint64
	k, s := int(n/64), n%64
	for i := 0; i < 4; i++ {
		w[i] = zzWord(x, i-k, 0)<<s | zzWord(x, i-k-1, 0)>>(64-s)
	}
	return zzSet(z, w)
}

func zzRight(x *Int, n uint, fill uint64) [4]uint64 {
	if n >= 256 {
		return [4]uint64{fill, fill, fill, fill}
	}
	var w [4]uint64
	k, s := int(n/64), n%64
	for i := 0; i < 4; i++ {
		w[i] = zzWord(x, i+k, fill)>>s | zzWord(x, i+k+1, fill)<<(64-s)
	}
	return w
}

func zzSpec_Rsh(z, x *Int, n uint) *Int { return zzSet(z, zzRight(x, n, 0)) }
func zzSpec_SRsh(z, x *Int, n uint) *Int {
	if zzNeg(x) {
		return zzSet(z, zzRight(x, n, ^uint64(0)))
	}
	return zzSet(z, zzRight(x, n, 0))
}

func zzSpec_BitLen(z *Int) int {
	for i := 3; i > 0; i-- {
		if z[i] != 0 {
			return 64*i + bits.Len64(z[i])
		}
	}
	return bits.Len64(z[0])
}
func zzSpec_ByteLen(z *Int) int { return (zzSpec_BitLen(z) + 7) / 8 }

// the k-th byte of z counted from the most significant one
func zzSpec_Byte(z, n *Int) *Int {
	if !zzSmall(n) || n[0] > 31 {
		return zzSet(z, [4]uint64{})
	}
	k := n[0]
	return zzSet(z, [4]uint64{z[3-k/8] >> (56 - 8*(k%8)) & 0xff})
}

func zzSpec_ExtendSign(z, x, byteNum *Int) *Int {
	if !zzSmall(byteNum) || byteNum[0] > 31 {
		return zzSet(z, *x)
	}
	bit := byteNum[0]*8 + 7
	var w [4]uint64
	for i := uint64(0); i < 4; i++ {
		switch {
		case i < bit/64:
			w[i] = x[i]
		case i > bit/64:
			w[i] = 0 - x[bit/64]>>(bit%64)&1
		default:
			m := ^uint64(0) << (bit % 64)
			w[i] = x[i] &^ m
			if x[i]>>(bit%64)&1 == 1 {
				w[i] = x[i]&^m | m
			}
		}
	}
	return zzSet(z, w)
}

var _ = binary.BigEndian

// Products: schoolbook multiplication, one row of partial products at a time.

func zzMul(x, y *Int) (p [8]uint64) {
	for i := 0; i < 4; i++ {
		var c uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(x[i], y[j])
			var k uint64
			lo, k = bits.Add64(lo, p[i+j], 0)
			hi += k
			lo, k = bits.Add64(lo, c, 0)
			hi += k
			p[i+j], c = lo, hi
		}
		p[i+4] = c
	}
	return
}

func zzSpec_UmulStep(z, x, y, carry uint64) (hi, lo uint64) {
	hi, lo = bits.Mul64(x, y)
	lo, k := bits.Add64(lo, z, 0)
	hi += k
	lo, k = bits.Add64(lo, carry, 0)
	hi += k
	return
}
func zzSpec_UmulHop(z, x, y uint64) (hi, lo uint64) { return zzSpec_UmulStep(z, x, y, 0) }
func zzSpec_Umul(x, y *Int) [8]uint64               { return zzMul(x, y) }
func zzSpec_Mul(z, x, y *Int) *Int {
	p := zzMul(x, y)
	return zzSet(z, [4]uint64{p[0], p[1], p[2], p[3]})
}
func zzSpec_MulOverflow(z, x, y *Int) (*Int, bool) {
	p := zzMul(x, y)
	zzSet(z, [4]uint64{p[0], p[1], p[2], p[3]})
	return z, p[4] != 0 || p[5] != 0 || p[6] != 0 || p[7] != 0
}
func zzSpec_squared(z *Int) {
	p := zzMul(z, z)
	zzSet(z, [4]uint64{p[0], p[1], p[2], p[3]})
}

// Quotients and remainders as numbers.

func zzSpec_Div(z, x, y *Int) *Int { return z.Div(x, y) }
func zzSpec_Mod(z, x, y *Int) *Int { return z.Mod(x, y) }

func zzAbs(x *Int) *Int {
	if x.Sign() < 0 {
		return new(Int).Neg(x)
	}
	return x.Clone()
}

func zzSpec_SDiv(z, n, d *Int) *Int {
	q := new(Int).Div(zzAbs(n), zzAbs(d))
	if (n.Sign() < 0) != (d.Sign() < 0) {
		q.Neg(q)
	}
	return z.Set(q)
}

func zzSpec_SMod(z, x, y *Int) *Int {
	r := new(Int).Mod(zzAbs(x), zzAbs(y))
	if x.Sign() < 0 {
		r.Neg(r)
	}
	return z.Set(r)
}

func zzRem(p [8]uint64, m *Int) Int {
	var q [8]uint64
	return Udivrem(q[:], p[:], m)
}

func zzSpec_MulMod(z, x, y, m *Int) *Int {
	if m.IsZero() {
		return z.Clear()
	}
	r := zzRem(Umul(x, y), m)
	return z.Set(&r)
}

func zzSpec_MulModWithReciprocal(z, x, y, m *Int, mu *[5]uint64) *Int {
	switch {
	case x.IsZero() || y.IsZero() || m.IsZero():
		return z.Clear()
	case m[3] == 0:
		r := zzRem(Umul(x, y), m)
		return z.Set(&r)
	}
	r := reduce4(Umul(x, y), m, *mu)
	return z.Set(&r)
}

// The sum of two numbers can have 257 bits.
func zzSpec_AddMod(z, x, y, m *Int) *Int {
	if m.IsZero() {
		return z.Clear()
	}
	// operands below 2m: subtractions suffice
	if m[3] != 0 && x[3] <= m[3] && y[3] <= m[3] {
		a, b := x.Clone(), y.Clone()
		if !a.Lt(m) {
			a.Sub(a, m)
		}
		if !b.Lt(m) {
			b.Sub(b, m)
		}
		s, over := new(Int).AddOverflow(a, b)
		if over {
			s.Sub(s, m)
		}
		if !s.Lt(m) {
			s.Sub(s, m)
		}
		return z.Set(s)
	}
	s, over := new(Int).AddOverflow(x, y)
	if !over {
		return z.Mod(s, m)
	}
	var q [5]uint64
	r := Udivrem(q[:], []uint64{s[0], s[1], s[2], s[3], 1}, m)
	return z.Set(&r)
}

func zzSpec_Exp(z, base, exponent *Int) *Int {
	r, p := NewInt(1), base.Clone()
	n := exponent.BitLen()
	i := 0
	for k, w := range exponent {
		for ; i < n && i < 64*(k+1); i++ {
			if w&1 == 1 {
				r.Mul(r, p)
			}
			p.Mul(p, p)
			w >>= 1
		}
	}
	return z.Set(r)
}

// Newton's iteration from above, until it no longer decreases.
func zzSpec_Sqrt(z, x *Int) *Int {
	if x.LtUint64(2) {
		return z.Set(x)
	}
	r := new(Int).Lsh(NewInt(1), uint(x.BitLen()+1)/2)
	for {
		n := new(Int).Div(x, r)
		n.Add(n, r)
		n.Rsh(n, 1)
		if n.Cmp(r) >= 0 {
			return z.Set(r)
		}
		r = n
	}
}
