// Package ref is the reference model: the Stream VByte format written down
// as plainly as possible. It shares no code with the library under test.
package ref

import "encoding/binary"

// Len is the minimal number of bytes that hold v: 1 for 0..255.
func Len(v uint32) int {
	switch {
	case v < 1<<8:
		return 1
	case v < 1<<16:
		return 2
	case v < 1<<24:
		return 3
	}
	return 4
}

// CtrlLen is the number of control bytes of a stream of n numbers.
func CtrlLen(n int) int { return (n + 3) / 4 }

// Encode returns the canonical plain stream of nums.
func Encode(nums []uint32) []byte { return EncodeTo(nil, nums) }

// EncodeTo is Encode into buf's memory when it is large enough.
func EncodeTo(buf []byte, nums []uint32) []byte {
	n := len(nums)
	cl := CtrlLen(n)
	need := cl + 4*n
	if cap(buf) < need {
		buf = make([]byte, need)
	}
	s := buf[:need]
	for i := 0; i < cl; i++ {
		s[i] = 0
	}
	pos := cl
	for i, v := range nums {
		l := Len(v)
		s[i/4] |= byte(l-1) << (2 * uint(i%4))
		for k := 0; k < l; k++ {
			s[pos] = byte(v >> (8 * uint(k)))
			pos++
		}
	}
	return s[:pos]
}

// Diffs writes nums' successive differences modulo 2^32 to out.
func Diffs(nums []uint32, prev uint32, out []uint32) []uint32 {
	out = out[:0]
	for _, v := range nums {
		out = append(out, v-prev)
		prev = v
	}
	return out
}

// Sums is the inverse of Diffs.
func Sums(diffs []uint32, prev uint32, out []uint32) []uint32 {
	out = out[:0]
	for _, d := range diffs {
		prev += d
		out = append(out, prev)
	}
	return out
}

// Code is number i's 2-bit length code in the control bytes.
func Code(ctrl []byte, i int) int { return int(ctrl[i/4]>>(2*uint(i%4))) & 3 }

// DataLen is the number of data bytes that the first n codes announce.
func DataLen(ctrl []byte, n int) int {
	t := 0
	for i := 0; i < n; i++ {
		t += Code(ctrl, i) + 1
	}
	return t
}

// Decode reads n numbers from a well-formed stream.
func Decode(n int, stream []byte, out []uint32) []uint32 {
	return DecodeSplit(n, stream[:CtrlLen(n)], stream[CtrlLen(n):], out)
}

// DecodeSplit reads n numbers given control and data bytes separately.
func DecodeSplit(n int, ctrl, data []byte, out []uint32) []uint32 {
	out = out[:0]
	pos := 0
	for i := 0; i < n; i++ {
		l := Code(ctrl, i) + 1
		var v uint32
		for k := 0; k < l; k++ {
			v |= uint32(data[pos]) << (8 * uint(k))
			pos++
		}
		out = append(out, v)
	}
	return out
}

var lens8 [65536]uint8 // data bytes of one 16-bit control word

func init() {
	for c := 0; c < 65536; c++ {
		t := 0
		for i := 0; i < 8; i++ {
			t += (c>>(2*uint(i)))&3 + 1
		}
		lens8[c] = uint8(t)
	}
}

// Size8 is the number of data bytes of a control word's 8 numbers.
func Size8(ctrl uint16) int { return int(lens8[ctrl]) }

// Put8 is the model of the 8-number block encoder, written for speed.
func Put8(in *[8]uint32, out *[36]byte) (ctrl uint16, size int) {
	pos := 0
	for i, v := range in {
		l := Len(v)
		binary.LittleEndian.PutUint32(out[pos:], v)
		pos += l
		ctrl |= uint16(l-1) << (2 * uint(i))
	}
	return ctrl, pos
}
