package uint256

import (
	"io"
	"math/big"
)

// Conversions to and from bytes, most significant first.

// zzBytes is the value of at most 32 bytes.
func zzBytes(b []byte) (w [4]uint64) {
	for i := 0; i < len(b); i++ {
		w[i/8] |= uint64(b[len(b)-1-i]) << (8 * uint(i%8))
	}
	return
}

func zzByte(x *Int, i int) byte { return byte(x[i/8] >> (8 * uint(i%8))) }

func zzSpec_SetBytes(z *Int, buf []byte) *Int {
	if len(buf) > 32 {
		buf = buf[len(buf)-32:]
		var b [32]byte
		for i := range b {
			b[i] = buf[i]
		}
		return zzSet(z, zzBytes(b[:]))
	}
	return zzSet(z, zzBytes(buf))
}

func zzFirst(z *Int, in []byte, n int) *Int { return zzSet(z, zzBytes(in[:n])) }

func zzSpec_Bytes32(z *Int) (b [32]byte) {
	for i := 0; i < 32; i++ {
		b[31-i] = zzByte(z, i)
	}
	return
}
func zzSpec_Bytes20(z *Int) (b [20]byte) {
	for i := 0; i < 20; i++ {
		b[19-i] = zzByte(z, i)
	}
	return
}
func zzSpec_WriteToArray32(z *Int, dest *[32]byte) {
	for i := 0; i < 32; i++ {
		dest[31-i] = zzByte(z, i)
	}
}
func zzSpec_WriteToArray20(z *Int, dest *[20]byte) {
	for i := 0; i < 20; i++ {
		dest[19-i] = zzByte(z, i)
	}
}
func zzSpec_Bytes(z *Int) []byte {
	b := z.Bytes32()
	return b[32-z.ByteLen():]
}

// the last bytes of z fill a short slice, all of them the start of a long one
func zzSpec_WriteToSlice(z *Int, dest []byte) {
	if len(dest) > 32 {
		dest = dest[:32]
		for i := 0; i < 32; i++ {
			dest[31-i] = zzByte(z, i)
		}
		return
	}
	for i := 0; i < len(dest); i++ {
		dest[len(dest)-1-i] = zzByte(z, i)
	}
}
func zzSpec_PaddedBytes(z *Int, n int) []byte {
	b := make([]byte, n)
	if n > 32 {
		for i := 0; i < 32; i++ {
			b[n-1-i] = zzByte(z, i)
		}
		return b
	}
	for i := 0; i < n; i++ {
		b[n-1-i] = zzByte(z, i)
	}
	return b
}

func zzShort(b []byte, n int) (w uint64) {
	for i := 0; i < n; i++ {
		w |= uint64(b[n-1-i]) << (8 * uint(i))
	}
	return
}
func zzSpec_bigEndianUint40(b []byte) uint64 { return zzShort(b, 5) }
func zzSpec_bigEndianUint48(b []byte) uint64 { return zzShort(b, 6) }
func zzSpec_bigEndianUint56(b []byte) uint64 { return zzShort(b, 7) }

var _ = io.EOF
var _ = big.NewInt

func zzSpec_SetBytes1(z *Int, in []byte) *Int  { return zzFirst(z, in, 1) }
func zzSpec_SetBytes2(z *Int, in []byte) *Int  { return zzFirst(z, in, 2) }
func zzSpec_SetBytes3(z *Int, in []byte) *Int  { return zzFirst(z, in, 3) }
func zzSpec_SetBytes4(z *Int, in []byte) *Int  { return zzFirst(z, in, 4) }
func zzSpec_SetBytes5(z *Int, in []byte) *Int  { return zzFirst(z, in, 5) }
func zzSpec_SetBytes6(z *Int, in []byte) *Int  { return zzFirst(z, in, 6) }
func zzSpec_SetBytes7(z *Int, in []byte) *Int  { return zzFirst(z, in, 7) }
func zzSpec_SetBytes8(z *Int, in []byte) *Int  { return zzFirst(z, in, 8) }
func zzSpec_SetBytes9(z *Int, in []byte) *Int  { return zzFirst(z, in, 9) }
func zzSpec_SetBytes10(z *Int, in []byte) *Int { return zzFirst(z, in, 10) }
func zzSpec_SetBytes11(z *Int, in []byte) *Int { return zzFirst(z, in, 11) }
func zzSpec_SetBytes12(z *Int, in []byte) *Int { return zzFirst(z, in, 12) }
func zzSpec_SetBytes13(z *Int, in []byte) *Int { return zzFirst(z, in, 13) }
func zzSpec_SetBytes14(z *Int, in []byte) *Int { return zzFirst(z, in, 14) }
func zzSpec_SetBytes15(z *Int, in []byte) *Int { return zzFirst(z, in, 15) }
func zzSpec_SetBytes16(z *Int, in []byte) *Int { return zzFirst(z, in, 16) }
func zzSpec_SetBytes17(z *Int, in []byte) *Int { return zzFirst(z, in, 17) }
func zzSpec_SetBytes18(z *Int, in []byte) *Int { return zzFirst(z, in, 18) }
func zzSpec_SetBytes19(z *Int, in []byte) *Int { return zzFirst(z, in, 19) }
func zzSpec_SetBytes20(z *Int, in []byte) *Int { return zzFirst(z, in, 20) }
func zzSpec_SetBytes21(z *Int, in []byte) *Int { return zzFirst(z, in, 21) }
func zzSpec_SetBytes22(z *Int, in []byte) *Int { return zzFirst(z, in, 22) }
func zzSpec_SetBytes23(z *Int, in []byte) *Int { return zzFirst(z, in, 23) }
func zzSpec_SetBytes24(z *Int, in []byte) *Int { return zzFirst(z, in, 24) }
func zzSpec_SetBytes25(z *Int, in []byte) *Int { return zzFirst(z, in, 25) }
func zzSpec_SetBytes26(z *Int, in []byte) *Int { return zzFirst(z, in, 26) }
func zzSpec_SetBytes27(z *Int, in []byte) *Int { return zzFirst(z, in, 27) }
func zzSpec_SetBytes28(z *Int, in []byte) *Int { return zzFirst(z, in, 28) }
func zzSpec_SetBytes29(z *Int, in []byte) *Int { return zzFirst(z, in, 29) }
func zzSpec_SetBytes30(z *Int, in []byte) *Int { return zzFirst(z, in, 30) }
func zzSpec_SetBytes31(z *Int, in []byte) *Int { return zzFirst(z, in, 31) }
func zzSpec_SetBytes32(z *Int, in []byte) *Int { return zzFirst(z, in, 32) }
