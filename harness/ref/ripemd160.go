package ref

import "math/bits"

// RIPEMD160 written out from the specification (Dobbertin, Bosselaers, Preneel 1996).

var rmR = [80]int{
	0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
	7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
	3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
	1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
	4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13,
}
var rmRp = [80]int{
	5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12,
	6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
	15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
	8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
	12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11,
}
var rmS = [80]int{
	11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8,
	7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
	11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
	11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
	9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6,
}
var rmSp = [80]int{
	8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6,
	9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
	9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
	15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
	8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11,
}
var rmK = [5]uint32{0x00000000, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E}
var rmKp = [5]uint32{0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0x00000000}

func rmF(j int, x, y, z uint32) uint32 {
	switch j / 16 {
	case 0:
		return x ^ y ^ z
	case 1:
		return (x & y) | (^x & z)
	case 2:
		return (x | ^y) ^ z
	case 3:
		return (x & z) | (y & ^z)
	default:
		return x ^ (y | ^z)
	}
}

type rmState struct {
	h   [5]uint32
	buf []byte
	n   uint64
}

func newRM() *rmState {
	return &rmState{h: [5]uint32{0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}}
}

func (s *rmState) block(p []byte) {
	var x [16]uint32
	for i := range x {
		x[i] = uint32(p[4*i]) | uint32(p[4*i+1])<<8 | uint32(p[4*i+2])<<16 | uint32(p[4*i+3])<<24
	}
	a, b, c, d, e := s.h[0], s.h[1], s.h[2], s.h[3], s.h[4]
	aa, bb, cc, dd, ee := a, b, c, d, e
	for j := 0; j < 80; j++ {
		t := bits.RotateLeft32(a+rmF(j, b, c, d)+x[rmR[j]]+rmK[j/16], rmS[j]) + e
		a, e, d, c, b = e, d, bits.RotateLeft32(c, 10), b, t
		t = bits.RotateLeft32(aa+rmF(79-j, bb, cc, dd)+x[rmRp[j]]+rmKp[j/16], rmSp[j]) + ee
		aa, ee, dd, cc, bb = ee, dd, bits.RotateLeft32(cc, 10), bb, t
	}
	t := s.h[1] + c + dd
	s.h[1] = s.h[2] + d + ee
	s.h[2] = s.h[3] + e + aa
	s.h[3] = s.h[4] + a + bb
	s.h[4] = s.h[0] + b + cc
	s.h[0] = t
}

func (s *rmState) write(p []byte) {
	s.n += uint64(len(p))
	s.buf = append(s.buf, p...)
	for len(s.buf) >= 64 {
		s.block(s.buf[:64])
		s.buf = s.buf[64:]
	}
}

func (s *rmState) sum() [20]byte {
	n := s.n
	pad := []byte{0x80}
	for (len(s.buf)+len(pad))%64 != 56 {
		pad = append(pad, 0)
	}
	for i := uint(0); i < 8; i++ {
		pad = append(pad, byte(n*8>>(8*i)))
	}
	s.write(pad)
	var rv [20]byte
	for i, v := range s.h {
		for k := 0; k < 4; k++ {
			rv[4*i+k] = byte(v >> (8 * k))
		}
	}
	return rv
}

// RIPEMD160 of a message.
func RIPEMD160(p []byte) [20]byte {
	s := newRM()
	s.write(p)
	return s.sum()
}

// RIPEMD160Repeat hashes n copies of p, for messages too long to build.
func RIPEMD160Repeat(p []byte, n int) [20]byte {
	s := newRM()
	for i := 0; i < n; i++ {
		s.write(p)
	}
	return s.sum()
}
