package ref

import (
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
)

const nameAlphabet = ".12345abcdefghijklmnopqrstuvwxyz"

// NameText renders a 64-bit name: 12 five-bit digits from the top, a four-bit
// digit at the bottom, trailing dots dropped.
func NameText(v uint64) string {
	var out []byte
	for i := 0; i < 12; i++ {
		shift := uint(64 - 5*(i+1))
		out = append(out, nameAlphabet[(v>>shift)%32])
	}
	out = append(out, nameAlphabet[v%16])
	return strings.TrimRight(string(out), ".")
}

// NameValue parses well-formed name text; ok is false for anything else.
func NameValue(s string) (v uint64, ok bool) {
	if len(s) > 13 || strings.HasSuffix(s, ".") {
		return 0, false
	}
	for i := 0; i < 13; i++ {
		d := 0
		if i < len(s) {
			d = strings.IndexByte(nameAlphabet, s[i])
		}
		if d < 0 {
			return 0, false
		}
		if i < 12 {
			v = v*32 + uint64(d)
		} else {
			if d > 15 {
				return 0, false
			}
			v = v*16 + uint64(d)
		}
	}
	return v, true
}

// DecimalText renders units * 10^-decimals with exactly that many decimals.
func DecimalText(units int64, decimals int) string {
	b := big.NewInt(units)
	neg := b.Sign() < 0
	s := new(big.Int).Abs(b).String()
	for len(s) < decimals+1 {
		s = "0" + s
	}
	rv := s[:len(s)-decimals]
	if decimals > 0 {
		rv += "." + s[len(s)-decimals:]
	}
	if neg {
		rv = "-" + rv
	}
	return rv
}

// SymbolRaw packs decimals and code into the 64-bit symbol.
func SymbolRaw(decimals int, code string) uint64 {
	var v uint64
	for i := len(code) - 1; i >= 0; i-- {
		v = v*256 + uint64(code[i])
	}
	return v*256 + uint64(decimals)
}

func AssetText(units int64, decimals int, code string) string {
	return DecimalText(units, decimals) + " " + code
}

func Hex(b []byte) string { return hex.EncodeToString(b) }

func B64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// civil converts days since 1970-01-01 to a proleptic Gregorian date by
// counting, which is slow and obvious.
func civil(days int64) (y int64, m, d int) {
	// whole 400-year cycles of 146097 days, starting at 1970
	cycles := days / 146097
	days -= cycles * 146097
	if days < 0 {
		days += 146097
		cycles--
	}
	y = 1970 + cycles*400
	leap := func(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }
	for {
		n := int64(365)
		if leap(y) {
			n = 366
		}
		if days < n {
			break
		}
		days -= n
		y++
	}
	ml := []int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if leap(y) {
		ml[1] = 29
	}
	m = 1
	for days >= ml[m-1] {
		days -= ml[m-1]
		m++
	}
	return y, m, int(days) + 1
}

// UTCText renders an instant as YYYY-MM-DDTHH:MM:SS with the given number of
// fractional digits cut off (rounded down). ok is false outside years 0..9999.
func UTCText(micros int64, digits int) (s string, ok bool) {
	sec := micros / 1000000
	us := micros % 1000000
	if us < 0 {
		us += 1000000
		sec--
	}
	days := sec / 86400
	r := sec % 86400
	if r < 0 {
		r += 86400
		days--
	}
	y, m, d := civil(days)
	if y < 0 || y > 9999 {
		return "", false
	}
	s = fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, m, d, r/3600, r/60%60, r%60)
	if digits > 0 {
		s += "." + fmt.Sprintf("%06d", us)[:digits]
	}
	return s, true
}

const b58Alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// Base58 encodes by schoolbook long division.
func Base58(b []byte) string {
	zeros := 0
	for zeros < len(b) && b[zeros] == 0 {
		zeros++
	}
	num := append([]byte{}, b...)
	var out []byte
	for {
		rem, nonzero := 0, false
		for i := range num {
			acc := rem*256 + int(num[i])
			num[i] = byte(acc / 58)
			rem = acc % 58
			if num[i] != 0 {
				nonzero = true
			}
		}
		out = append(out, b58Alphabet[rem])
		if !nonzero {
			break
		}
	}
	// strip the digits of a zero number, then add one '1' per zero byte
	for len(out) > 0 && out[len(out)-1] == '1' {
		out = out[:len(out)-1]
	}
	for i := 0; i < zeros; i++ {
		out = append(out, '1')
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return string(out)
}

// Base58Dec is the inverse; ok is false for characters outside the alphabet.
func Base58Dec(s string) (rv []byte, ok bool) {
	ones := 0
	for ones < len(s) && s[ones] == '1' {
		ones++
	}
	var num []byte // little endian
	for i := 0; i < len(s); i++ {
		d := strings.IndexByte(b58Alphabet, s[i])
		if d < 0 {
			return nil, false
		}
		carry := d
		for j := range num {
			acc := int(num[j])*58 + carry
			num[j] = byte(acc)
			carry = acc >> 8
		}
		for carry > 0 {
			num = append(num, byte(carry))
			carry >>= 8
		}
	}
	rv = make([]byte, ones)
	for i := len(num) - 1; i >= 0; i-- {
		rv = append(rv, num[i])
	}
	return rv, true
}

func Base58Valid(s string) bool {
	for i := 0; i < len(s); i++ {
		if strings.IndexByte(b58Alphabet, s[i]) < 0 {
			return false
		}
	}
	return true
}

// KeyText renders key or signature data in the PUB_/SIG_ form.
func KeyText(prefix, typ string, data []byte) string {
	sum := RIPEMD160(Cat(data, []byte(typ)))
	return prefix + "_" + typ + "_" + Base58(Cat(data, sum[:4]))
}

// LegacyKeyText renders the old K1 form.
func LegacyKeyText(prefix string, data []byte) string {
	sum := RIPEMD160(data)
	return prefix + Base58(Cat(data, sum[:4]))
}

// Int128Big interprets two words as a two's complement number.
func Int128Big(lo, hi uint64) *big.Int {
	v := new(big.Int).SetUint64(hi)
	v.Mul(v, new(big.Int).Exp(big.NewInt(2), big.NewInt(64), nil))
	v.Add(v, new(big.Int).SetUint64(lo))
	if hi >= 1<<63 {
		v.Sub(v, new(big.Int).Exp(big.NewInt(2), big.NewInt(128), nil))
	}
	return v
}

func Uint128Big(lo, hi uint64) *big.Int {
	v := new(big.Int).SetUint64(hi)
	v.Mul(v, new(big.Int).Exp(big.NewInt(2), big.NewInt(64), nil))
	return v.Add(v, new(big.Int).SetUint64(lo))
}
