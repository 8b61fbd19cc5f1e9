package uint256

import (
	"fmt"
	"io"
	"math/big"
	"math/bits"
)

// Conversions to and from text, big integers and RLP.

const zzDigits = "0123456789abcdef"
const zzNibbles = "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\x00\x01\x02\x03\x04\x05\x06\a\b\t\xff\xff\xff\xff\xff\xff\xff\n\v\f\r\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\n\v\f\r\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff"

// zzHex: 0x and at least one digit, no leading zero, at most 64 digits.
func zzHex(s string) (w [4]uint64, err error) {
	n := len(s)
	switch {
	case n == 0:
		return w, ErrEmptyString
	case n < 2 || s[0] != '0' || (s[1] != 'x' && s[1] != 'X'):
		return w, ErrMissingPrefix
	case n == 2:
		return w, ErrEmptyNumber
	case n > 3 && s[2] == '0':
		return w, ErrLeadingZero
	case n > 66:
		return w, ErrBig256Range
	}
	for i := 0; i < n-2; i++ {
		d := zzNibbles[s[n-1-i]]
		if d == 0xff {
			return w, ErrSyntax
		}
		w[i/16] += uint64(d) << (4 * uint(i%16))
	}
	return
}

func zzSpec_FromHex(hex string) (*Int, error) {
	w, err := zzHex(hex)
	if err != nil {
		return nil, err
	}
	return &Int{w[0], w[1], w[2], w[3]}, nil
}

// a number that is given a new value, which is unspecified after an error
func zzDo_UnmarshalText(old Int, text string) (Int, error) {
	z := new(Int)
	*z = old
	if err := z.UnmarshalText([]byte(text)); err != nil {
		return Int{}, err
	}
	return *z, nil
}
func zzSpec_UnmarshalText(old Int, text string) (Int, error) {
	w, err := zzHex(text)
	if err != nil {
		return Int{}, err
	}
	return w, nil
}
func zzDo_UnmarshalJSON(old Int, text string) (Int, error) {
	z := new(Int)
	*z = old
	if err := z.UnmarshalJSON([]byte(text)); err != nil {
		return Int{}, err
	}
	return *z, nil
}
func zzSpec_UnmarshalJSON(old Int, text string) (Int, error) {
	n := len(text)
	if n < 2 || text[0] != '"' || text[n-1] != '"' {
		return Int{}, ErrNonString
	}
	return zzSpec_UnmarshalText(old, text[1:n-1])
}

// zzText: the digits from the highest that is not zero, at least one.
func zzText(z *Int) []byte {
	n := (z.BitLen() + 3) / 4
	if n == 0 {
		n = 1
	}
	b := make([]byte, n+2)
	b[0], b[1] = '0', 'x'
	for i := 0; i < n; i++ {
		b[n+1-i] = zzDigits[byte(z[i/16]>>(4*uint(i%16)))&0xf]
	}
	return b
}
func zzSpec_Hex(z *Int) string                  { return string(zzText(z)) }
func zzSpec_String(z *Int) string               { return z.Hex() }
func zzSpec_MarshalText(z *Int) ([]byte, error) { return []byte(z.Hex()), nil }

func zzSpec_EncodeRLP(z *Int, w io.Writer) error {
	var b []byte
	switch {
	case z == nil || z.BitLen() == 0:
		b = []byte{0x80}
	case z.BitLen() <= 7:
		b = []byte{byte(z[0])}
	default:
		n := (z.BitLen() + 7) / 8
		b = make([]byte, n+1)
		b[0] = 0x80 + byte(n)
		for i := 0; i < n; i++ {
			b[n-i] = zzByte(z, i)
		}
	}
	_, err := w.Write(b)
	return err
}

func zzSpec_ToBig(z *Int) *big.Int {
	r := new(big.Int)
	r.SetBits([]big.Word{big.Word(z[0]), big.Word(z[1]), big.Word(z[2]), big.Word(z[3])})
	return r
}
func zzSpec_SToBig(z *Int) *big.Int {
	if z.Sign() < 0 {
		r := new(Int).Neg(z).ToBig()
		return r.Neg(r)
	}
	return z.ToBig()
}

// the value modulo 2^256, and whether it has more words than that
func zzSpec_SetFromBig(z *Int, b *big.Int) bool {
	x := b.Bits()
	var w [4]uint64
	for i := 0; i < 4 && i < len(x); i++ {
		w[i] = uint64(x[i])
	}
	if b.Sign() < 0 {
		n := Int(w)
		w = zzMinus(&n)
	}
	zzSet(z, w)
	return len(x) > 4
}
func zzSpec_FromBig(b *big.Int) (*Int, bool) {
	z := new(Int)
	o := zzSpec_SetFromBig(z, b)
	return z, o
}
func zzSpec_Format(z *Int, s fmt.State, ch rune) { z.SToBig().Format(s, ch) }

var _ = bits.Len64
