package props

import (
	"fmt"
	"math"
	"strings"

	"pgregory.net/rapid"
)

// Generators, biased towards the values where binary and text formats change
// shape: powers of two, varint group boundaries, extremes, length-prefix sizes.

func pick[T any](t *rapid.T, name string, xs ...T) T {
	return rapid.SampledFrom(xs).Draw(t, name)
}

func chance(t *rapid.T, name string, oneIn int) bool {
	return rapid.IntRange(0, oneIn-1).Draw(t, name) == oneIn-1
}

// gLong makes s longer by a number of characters that is lost when a length
// is kept in 8 (or 16) bits.
func gLong(t *rapid.T, s string, very bool) string {
	n := pick(t, "longer", 256, 256, 512)
	if very && chance(t, "much longer", 40) {
		n = 65536
	}
	i := pick(t, "long.where", 0, len(s), rapid.IntRange(0, len(s)).Draw(t, "long.at"))
	unit := pick(t, "long.unit", " ", "0", "Z", ".", ",", "A", "1", "-", "\x00", " A", ",A", "00")
	if len(s) > 0 && rapid.Bool().Draw(t, "long.same") {
		unit = s[min(i, len(s)-1):][:1]
	}
	return s[:i] + strings.Repeat(unit, n) + s[i:]
}

// maybeLong uses gLong now and then.
func maybeLong(t *rapid.T, s string) string {
	if chance(t, "long", 40) {
		return gLong(t, s, true)
	}
	return s
}

func gU64(t *rapid.T, name string) uint64 {
	switch rapid.IntRange(0, 12).Draw(t, name+".how") {
	case 12:
		return dInt(t, name)
	case 0, 11:
		return uint64(rapid.IntRange(0, 300).Draw(t, name))
	case 1, 2, 9, 10: // around a power of two
		k := rapid.IntRange(0, 64).Draw(t, name+".pow")
		d := rapid.IntRange(-2, 2).Draw(t, name+".off")
		var p uint64
		if k < 64 {
			p = 1 << k
		}
		return p + uint64(int64(d))
	case 3, 8: // around a power of ten
		k := rapid.IntRange(0, 19).Draw(t, name+".pow10")
		p := uint64(1)
		for i := 0; i < k; i++ {
			p *= 10
		}
		return p + uint64(int64(rapid.IntRange(-1, 1).Draw(t, name+".off")))
	case 4, 7:
		return pick(t, name+".bytes", uint64(0x0102030405060708), 0x8000000000000000, 0xff00ff00ff00ff00, 0x00ff00ff00ff00ff, 0x7fffffffffffffff, math.MaxUint64, 0x80, 0x8080, 0x80000000, 0xffffffff, 0x100000000)
	default:
		return rapid.Uint64().Draw(t, name)
	}
}

func gI64(t *rapid.T, name string) int64 {
	v := int64(gU64(t, name))
	if rapid.Bool().Draw(t, name+".neg") {
		v = -v
	}
	return v
}

func gU32(t *rapid.T, name string) uint32 {
	switch rapid.IntRange(0, 11).Draw(t, name+".w") {
	case 0, 1, 2:
		return rapid.Uint32().Draw(t, name+".u32")
	case 11:
		return uint32(dInt(t, name))
	}
	k := rapid.IntRange(0, 32).Draw(t, name+".pow")
	d := rapid.IntRange(-2, 2).Draw(t, name+".off")
	return uint32(uint64(1)<<k) + uint32(int32(d))
}

func gI32(t *rapid.T, name string) int32 {
	v := int32(gU32(t, name))
	if rapid.Bool().Draw(t, name+".neg") {
		v = -v
	}
	return v
}

func gU16(t *rapid.T, name string) uint16 { return uint16(gU32(t, name)) }
func gI16(t *rapid.T, name string) int16  { return int16(gI32(t, name)) }
func gU8(t *rapid.T, name string) uint8 {
	switch rapid.IntRange(0, 12).Draw(t, name+".w") {
	case 0, 1, 2, 3, 4, 5:
		return rapid.Byte().Draw(t, name)
	case 12:
		return uint8(dInt(t, name))
	}
	return pick(t, name+".edge", uint8(0), 1, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff)
}
func gI8(t *rapid.T, name string) int8 { return int8(gU8(t, name)) }

func gF32(t *rapid.T, name string) float32 {
	return math.Float32frombits(pick(t, name+".e", func() []uint32 {
		return []uint32{0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffc12345, 1, 0x007fffff, 0x7f7fffff, 0x3f800000, gU32(t, name), rapid.Uint32().Draw(t, name+".r")}
	}()...))
}

func gF64(t *rapid.T, name string) float64 {
	return math.Float64frombits(pick(t, name+".e", func() []uint64 {
		return []uint64{0, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff0000000000001, 0xfff8000000012345, 1, 0x000fffffffffffff, 0x7fefffffffffffff, 0x3ff0000000000000, gU64(t, name), rapid.Uint64().Draw(t, name+".r")}
	}()...))
}

// gVaruint32 is biased to the sizes of 1..5 byte encodings.
func gVaru(t *rapid.T, name string) uint32 {
	switch rapid.IntRange(0, 4).Draw(t, name+".how") {
	case 0:
		return uint32(rapid.IntRange(0, 130).Draw(t, name))
	case 1:
		return pick(t, name+".edge", uint32(0), 127, 128, 16383, 16384, 1<<21-1, 1<<21, 1<<28-1, 1<<28, 1<<28+1, math.MaxInt32, 1<<31, math.MaxUint32-1, math.MaxUint32)
	default:
		return gU32(t, name)
	}
}

func gVari(t *rapid.T, name string) int32 {
	switch rapid.IntRange(0, 3).Draw(t, name+".how") {
	case 0:
		return int32(rapid.IntRange(-130, 130).Draw(t, name))
	case 1:
		return pick(t, name+".edge", int32(0), -1, 1, 63, 64, -64, -65, 8191, 8192, -8192, -8193, 1<<20-1, 1<<20, -1<<20, -1<<20-1, 1<<27-1, 1<<27, -1<<27, -1<<27-1, math.MaxInt32, math.MinInt32, math.MinInt32+1)
	default:
		return gI32(t, name)
	}
}

// gLen gives a length: mostly small, sometimes around the points where the
// varuint32 length prefix grows. max caps it.
func gLen(t *rapid.T, name string, max int) int {
	var n int
	switch rapid.IntRange(0, 20).Draw(t, name+".how") {
	case 20:
		n = dLen(t, name, max)
	case 0:
		n = rapid.IntRange(120, 135).Draw(t, name+".b1")
	case 1:
		n = pick(t, name+".edge", 127, 128, 129, 255, 256, 257, 300, 511, 512, 1000)
	case 2:
		if chance(t, name+".big", 8) {
			n = pick(t, name+".edge2", 16383, 16384, 16385, 32768, 65535, 65536, 65537, 70000, 131073, 200000)
		} else {
			n = rapid.IntRange(0, 70).Draw(t, name+".mid")
		}
	case 3, 4, 5:
		n = rapid.IntRange(0, 40).Draw(t, name+".mid")
	default:
		n = rapid.IntRange(0, 5).Draw(t, name+".small")
	}
	if n > max {
		n = n % (max + 1)
	}
	return n
}

// gFill gives n bytes. Short ones are drawn byte by byte so that they shrink;
// long ones are expanded from a drawn seed.
func gFill(t *rapid.T, name string, n int) []byte {
	b := make([]byte, n)
	if n == 0 {
		return b
	}
	switch rapid.IntRange(0, 12).Draw(t, name+".pat") {
	case 12: // something that the code mentions, somewhere
		expand(b, rapid.Uint64().Draw(t, name+".seed"))
		i := pick(t, name+".dat", 0, 0, n/2, n-1, rapid.IntRange(0, n-1).Draw(t, name+".at"))
		if rapid.Bool().Draw(t, name+".dtext") {
			copy(b[i:], dStr(t, name))
		} else {
			v := dInt(t, name)
			w := pick(t, name+".dwidth", 1, 2, 4, 8)
			for k := 0; k < w && i+k < n; k++ {
				b[i+k] = byte(v >> (8 * k))
			}
		}
	case 0, 11:
		c := gU8(t, name+".c")
		for i := range b {
			b[i] = c
		}
	case 1, 10: // zeros then something
		for i := 0; i < n; i++ {
			b[i] = 0
		}
		b[n-1] = gU8(t, name+".last")
	default:
		if n <= 24 {
			for i := range b {
				b[i] = gU8(t, name)
			}
		} else {
			x := rapid.Uint64().Draw(t, name+".seed")
			expand(b, x)
		}
	}
	return b
}

// expand fills b deterministically from x (splitmix64).
func expand(b []byte, x uint64) {
	for i := 0; i < len(b); i += 8 {
		x += 0x9e3779b97f4a7c15
		z := x
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		z ^= z >> 31
		for k := 0; k < 8 && i+k < len(b); k++ {
			b[i+k] = byte(z >> (8 * k))
		}
	}
}

func gBytes(t *rapid.T, name string, max int) []byte {
	return gFill(t, name, gLen(t, name+".len", max))
}

// gString gives arbitrary byte content, including invalid UTF-8.
func gString(t *rapid.T, name string, max int) string {
	switch rapid.IntRange(0, 10).Draw(t, name+".kind") {
	case 10:
		s := dText(t, name)
		if len(s) > max {
			s = s[:max]
		}
		return s
	case 0, 9:
		return string(gBytes(t, name, max))
	case 1, 8:
		return pick(t, name+".edge", "", "\x00", "a", "\xff", "\xc3\x28", "héllo wörld ✓ 🎉", "\u2028", "\"quoted\\\"", "\ufeff", "\xed\xa0\x80")
	case 2, 7:
		n := gLen(t, name+".len", max)
		b := make([]byte, n)
		for i := range b {
			b[i] = 'a' + byte(i%26)
		}
		return string(b)
	default:
		s := rapid.StringN(0, 12, -1).Draw(t, name)
		if len(s) > max {
			s = s[:max]
		}
		return s
	}
}

// gValidString is gString restricted to valid UTF-8 (for JSON).
func gValidString(t *rapid.T, name string) string {
	switch rapid.IntRange(0, 8).Draw(t, name+".kind") {
	case 8:
		return dValidText(t, name)
	case 0, 7:
		return pick(t, name+".edge", "", "a", "héllo ✓ 🎉", "<b>&amp;\u2028", "\"quoted\\\"", "\t\n", "---\ntitle: x\n---", "\x7f")
	case 1, 6:
		n := gLen(t, name+".len", 400)
		b := make([]byte, n)
		for i := range b {
			b[i] = 'a' + byte(i%26)
		}
		return string(b)
	default:
		return rapid.StringN(0, 12, -1).Draw(t, name)
	}
}

func gCode(t *rapid.T, name string) string {
	if chance(t, name+".dict", 16) {
		c := []byte(strings.ToUpper(dStr(t, name)))
		ok := len(c) > 0
		for _, x := range c {
			ok = ok && x >= 'A' && x <= 'Z'
		}
		if ok {
			return string(c[:min(len(c), 7)])
		}
	}
	n := rapid.IntRange(1, 7).Draw(t, name+".n")
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('A' + rapid.IntRange(0, 25).Draw(t, name))
	}
	return string(b)
}

func hexs(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x...(%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%x", b)
}
