package props

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/greymass/go-eosio/pkg/chain"
	"pgregory.net/rapid"

	"verif/ref"
)

const nameChars = ".12345abcdefghijklmnopqrstuvwxyz"

// gNameText is a well-formed name.
func gNameText(t *rapid.T, label string) string {
	if chance(t, label+".dict", 16) {
		s := dStr(t, label)
		if v, ok := ref.NameValue(s); ok && ref.NameText(v) == s {
			return s
		}
	}
	n := rapid.IntRange(0, 13).Draw(t, label+".n")
	b := make([]byte, n)
	for i := range b {
		max := 31
		if i == 12 {
			max = 15
		}
		b[i] = nameChars[rapid.IntRange(0, max).Draw(t, label)]
	}
	return strings.TrimRight(string(b), ".")
}

func cmp(a, b bool) int {
	if a {
		return -1
	}
	if b {
		return 1
	}
	return 0
}

func TestC14(t *testing.T) {
	value := func(t interface{ Fatalf(string, ...any) }, v uint64) {
		n := chain.Name(v)
		s := n.String()
		if want := ref.NameText(v); s != want {
			t.Fatalf("name 0x%x renders as %q, EOSIO says %q", v, s, want)
		}
		for how, got := range map[string]chain.Name{"N": chain.N(s), "NewName": chain.NewName(s), "UnmarshalText": func() chain.Name {
			n := chain.Name(^v)
			if err := n.UnmarshalText([]byte(s)); err != nil {
				t.Fatalf("UnmarshalText(%q): %v", s, err)
			}
			return n
		}()} {
			if got != n {
				t.Fatalf("%s(%q) of name 0x%x gives 0x%x", how, s, v, uint64(got))
			}
		}
		if b, err := n.MarshalText(); err != nil || string(b) != s {
			t.Fatalf("name 0x%x: MarshalText %q %v, String %q", v, b, err, s)
		}
		if f := fmt.Sprint(n); f != s {
			t.Fatalf("name 0x%x prints as %q, not %q", v, f, s)
		}
	}
	once(t, "positions", func(t *testing.T) {
		// every character in every position, alone and with everything else set
		for i := 0; i < 13; i++ {
			w, shift := 32, 64-5*(i+1)
			if i == 12 {
				w, shift = 16, 0
			}
			for d := 0; d < w; d++ {
				v := uint64(d) << shift
				m := uint64(w-1) << shift
				stats.Case("single digit", d > 0, fmt.Sprint(i, d))
				value(t, v)
				value(t, ^m|v)
				value(t, v|0x5555555555555555&^m)
			}
		}
	})
	check(t, "value", 60000, func(t *rapid.T) {
		v := uint64(gName(t, "name"))
		stats.Case("64-bit value", v != 0, fmt.Sprint(v))
		value(t, v)
	})
	check(t, "text", 60000, func(t *rapid.T) {
		s := gNameText(t, "name")
		stats.Case("well-formed text", s != "", s)
		n := chain.NewName(s)
		want, ok := ref.NameValue(s)
		if !ok {
			t.Fatalf("HARNESS-ERROR: %q", s)
		}
		if uint64(n) != want || n.String() != s || chain.N(s) != n {
			t.Fatalf("%q parses to 0x%x which renders as %q; EOSIO says 0x%x", s, uint64(n), n.String(), want)
		}
		var u chain.Name = 0xdeadbeef
		if err := u.UnmarshalText([]byte(s)); err != nil || u != n {
			t.Fatalf("UnmarshalText(%q) gives 0x%x, %v", s, uint64(u), err)
		}
	})
	check(t, "order", 30000, func(t *rapid.T) {
		a := uint64(gName(t, "a"))
		b := uint64(gName(t, "b"))
		switch rapid.IntRange(0, 3).Draw(t, "near") {
		case 0: // differ in one character
			i := rapid.IntRange(0, 12).Draw(t, "i")
			if i == 12 {
				b = a ^ uint64(rapid.IntRange(1, 15).Draw(t, "x"))
			} else {
				b = a ^ uint64(rapid.IntRange(1, 31).Draw(t, "x"))<<(64-5*(i+1))
			}
		case 1: // a prefix
			s := ref.NameText(a)
			b, _ = ref.NameValue(strings.TrimRight(s[:rapid.IntRange(0, len(s)).Draw(t, "cut")], "."))
		}
		sa, sb := chain.Name(a).String(), chain.Name(b).String()
		stats.Case("order", a != b, fmt.Sprint(sa, " ", sb))
		if cmp(a < b, a > b) != strings.Compare(sa, sb) {
			t.Fatalf("0x%x and 0x%x order as %d, their texts %q and %q as %d", a, b, cmp(a < b, a > b), sa, sb, strings.Compare(sa, sb))
		}
	})
	check(t, "other text", 20000, func(t *rapid.T) {
		var s string
		switch rapid.IntRange(0, 3).Draw(t, "how") {
		case 0:
			s = gString(t, "s", 300)
		case 1:
			b := []byte(gNameText(t, "name"))
			for k := rapid.IntRange(1, 3).Draw(t, "edits"); k > 0; k-- {
				i := rapid.IntRange(0, len(b)).Draw(t, "at")
				b = append(b[:i:i], append([]byte{gU8(t, "c")}, b[i:]...)...)
			}
			s = string(b)
		case 2:
			s = gNameText(t, "name") + pick(t, "dots", ".", "..", "...", ".............")
		case 3:
			n := rapid.IntRange(12, 20).Draw(t, "n")
			b := make([]byte, n)
			for i := range b {
				b[i] = nameChars[rapid.IntRange(0, 31).Draw(t, "c")]
			}
			s = string(b)
		}
		_, wf := ref.NameValue(s)
		stats.Case("arbitrary text", !wf, strconv.Quote(s))
		var n chain.Name
		if msg, bad := noPanic(func() { n = chain.NewName(s) }); bad {
			t.Fatalf("NewName(%q) panics: %s", s, msg)
		}
		value(t, uint64(n))
	})
}

// ---- C15 ----------------------------------------------------------------------

var (
	reAmount = regexp.MustCompile(`^[+-]?([0-9]*)(?:\.([0-9]*))?$`)
	reCode   = regexp.MustCompile(`^[A-Z]{1,7}$`)
)

// amountOf gives the units and decimals that an amount denotes. ok is false if
// it denotes nothing.
func amountOf(s string) (units *big.Int, decimals int, ok bool) {
	m := reAmount.FindStringSubmatch(s)
	if m == nil || m[1]+m[2] == "" {
		return nil, 0, false
	}
	u, good := new(big.Int).SetString(m[1]+m[2], 10)
	if !good {
		return nil, 0, false
	}
	if s[0] == '-' {
		u.Neg(u)
	}
	return u, len(m[2]), true
}

func fitsI64(b *big.Int) bool { return b.IsInt64() }

func gAmountText(t *rapid.T) string {
	digits := func(label string, max int) string {
		n := rapid.IntRange(0, max).Draw(t, label+".n")
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + rapid.IntRange(0, 9).Draw(t, label))
		}
		return string(b)
	}
	switch rapid.IntRange(0, 8).Draw(t, "amount") {
	case 7:
		if rapid.Bool().Draw(t, "dtext") {
			return dText(t, "d")
		}
		s := strconv.FormatInt(int64(dInt(t, "d")), 10)
		i := rapid.IntRange(0, len(s)).Draw(t, "point")
		return s[:i] + pick(t, "p", "", ".") + s[i:]
	case 6: // so many decimals that counting them in few bits fails
		n := pick(t, "decimals", 19, 127, 128, 254, 255, 256, 257, 260, 274, 275, 512, 516)
		if chance(t, "very many", 50) {
			n = pick(t, "decimals2", 65535, 65536, 65540)
		}
		return pick(t, "sign", "", "-") + digits("int", 2) + "." + strings.Repeat("0", n) + digits("frac", 5)
	case 0: // near the ends of the range
		u := new(big.Int).SetInt64(pick(t, "end", int64(math.MaxInt64), math.MinInt64))
		u.Add(u, big.NewInt(int64(rapid.IntRange(-12, 12).Draw(t, "off"))))
		s := u.String()
		d := rapid.IntRange(0, 18).Draw(t, "d")
		if d > 0 {
			s = s[:len(s)-d] + "." + s[len(s)-d:]
		}
		return s
	case 1: // many decimals
		return digits("int", 3) + "." + digits("frac", 22)
	case 2: // long
		return pick(t, "sign", "", "-") + digits("int", 25) + pick(t, "tail", "", ".0", ".00000")
	case 3: // odd signs, points and characters
		s := pick(t, "sign", "", "-", "+", "--", "-+", " ") + digits("int", 5) + pick(t, "p", ".", "", "..", ",", ".-", ". ") + digits("frac", 5)
		return s
	case 4:
		s := []byte(digits("int", 4) + "." + digits("frac", 4))
		i := rapid.IntRange(0, len(s)-1).Draw(t, "at")
		s[i] = pick(t, "c", byte('-'), '+', 'e', 'x', '_', ' ', '.', ',', '\'', 0, 0xff, '/', ':', 'O')
		return string(s)
	case 5: // leading zeros
		return pick(t, "sign", "", "-") + strings.Repeat("0", rapid.IntRange(1, 30).Draw(t, "zeros")) + digits("int", 4) + "." + digits("frac", 6)
	default:
		return pick(t, "odd", "", ".", "-", "+", "-.", "1e5", "0x10", "NaN", "Inf", "-0", "-0.0", "1_000", "٣", "½", "0b1", "1.", ".1", "-.1", "\t1", "1\n")
	}
}

func gCodeText(t *rapid.T) string {
	switch rapid.IntRange(0, 4).Draw(t, "code") {
	case 0:
		return pick(t, "odd", "", "eos", "EOSIOXXX", "EOSIOXXXX", "E S", "EOS ", "ÉOS", "EO$", "E1", "@A", "[A", "A[", "A@", "AAAAAAa", "a", "\x00", "A\x00", "EOS\n", "AAAAAAAAAAAAAAAAAA")
	case 1:
		b := []byte(gCode(t, "code"))
		b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] = gU8(t, "c")
		return string(b)
	case 2:
		return gCode(t, "code") + gCode(t, "more")
	default:
		return gCode(t, "code")
	}
}

func TestC15(t *testing.T) {
	check(t, "asset", 40000, func(t *rapid.T) {
		units := gI64(t, "units")
		if chance(t, "min", 20) {
			units = math.MinInt64
		}
		d, code := gSymbolParts(t, "sym")
		want := ref.AssetText(units, d, code)
		a := chain.Asset{Value: units, Symbol: chain.Symbol(ref.SymbolRaw(d, code))}
		stats.Case("asset", units != 0, want)
		if s := a.String(); s != want {
			t.Fatalf("asset %d units of %d,%s renders as %q, want %q", units, d, code, s, want)
		}
		if b, err := a.MarshalText(); err != nil || string(b) != want {
			t.Fatalf("MarshalText of %q: %q %v", want, b, err)
		}
		back, err := chain.NewAssetFromString(want)
		if err != nil || *back != a {
			t.Fatalf("%q parses to %s, %v", want, show(back), err)
		}
		u := chain.Asset{Value: 77, Symbol: 1}
		if err := u.UnmarshalText([]byte(want)); err != nil || u != a {
			t.Fatalf("UnmarshalText(%q) gives %s, %v", want, show(u), err)
		}
		if p := chain.A(want); *p != a {
			t.Fatalf("A(%q) gives %s", want, show(p))
		}
		if p := chain.NewAsset(units, a.Symbol); *p != a {
			t.Fatalf("NewAsset gives %s", show(p))
		}
		if a.Symbol.Decimals() != d || a.Symbol.Name() != code || a.Symbol.Code() != chain.SymbolCode(ref.SymbolRaw(0, code)>>8) {
			t.Fatalf("%q: decimals %d, name %q, code %d", want, a.Symbol.Decimals(), a.Symbol.Name(), a.Symbol.Code())
		}
		p10 := 1
		for i := 0; i < d; i++ {
			p10 *= 10
		}
		if a.Symbol.Precision() != p10 {
			t.Fatalf("%q: precision %d", want, a.Symbol.Precision())
		}
		nearest, _ := new(big.Rat).SetFrac(big.NewInt(units), big.NewInt(int64(p10))).Float64()
		if f := a.FloatValue(); f != nearest {
			t.Fatalf("%q has float value %v, nearest is %v", want, f, nearest)
		}
	})
	check(t, "symbol", 20000, func(t *rapid.T) {
		d, code := gSymbolParts(t, "sym")
		want := fmt.Sprint(d) + "," + code
		raw := chain.Symbol(ref.SymbolRaw(d, code))
		stats.Case("symbol", true, want)
		if raw.String() != want {
			t.Fatalf("symbol 0x%x renders as %q, want %q", uint64(raw), raw.String(), want)
		}
		if b, err := raw.MarshalText(); err != nil || string(b) != want {
			t.Fatalf("MarshalText of %q: %q %v", want, b, err)
		}
		if s, err := chain.NewSymbolFromString(want); err != nil || s != raw {
			t.Fatalf("%q parses to 0x%x, %v; want 0x%x", want, uint64(s), err, uint64(raw))
		}
		if s, err := chain.NewSymbol(uint8(d), code); err != nil || s != raw {
			t.Fatalf("NewSymbol(%d, %q) is 0x%x, %v; want 0x%x", d, code, uint64(s), err, uint64(raw))
		}
		var u chain.Symbol = 5
		if err := u.UnmarshalText([]byte(want)); err != nil || u != raw {
			t.Fatalf("UnmarshalText(%q) gives 0x%x, %v", want, uint64(u), err)
		}
		sc := raw.Code()
		if b, err := sc.MarshalText(); err != nil || string(b) != code {
			t.Fatalf("symbol code 0x%x renders as %q, %v; want %q", uint64(sc), b, err, code)
		}
		var c chain.SymbolCode = 5
		if err := c.UnmarshalText([]byte(code)); err != nil || c != chain.SymbolCode(ref.SymbolRaw(0, code)>>8) {
			t.Fatalf("symbol code %q parses to 0x%x, %v", code, uint64(c), err)
		}
	})
	check(t, "asset text", 60000, func(t *rapid.T) {
		amount, code := gAmountText(t), gCodeText(t)
		sep := " "
		if chance(t, "sep", 15) {
			sep = pick(t, "sepchar", "", "  ", "\t", ",", " \n", "\u00a0", " X ")
		}
		s := amount + sep + code
		if chance(t, "around", 25) {
			s = pick(t, "pre", "", " ", "\t") + s + pick(t, "post", " ", "\n", " X")
		}
		s = maybeLong(t, s)
		if p := strings.SplitN(s, " ", 2); len(p) == 2 {
			amount, code = p[0], p[1]
		} else {
			amount, code = s, ""
		}
		units, dec, ok := amountOf(amount)
		must := ok && reCode.MatchString(code) && dec <= 18 && fitsI64(units)
		stats.Case("asset text", !must, strconv.Quote(s))
		u := chain.Asset{Value: 123456, Symbol: 7}
		var a *chain.Asset
		var err, uerr error
		if msg, bad := noPanic(func() {
			a, err = chain.NewAssetFromString(s)
			uerr = u.UnmarshalText([]byte(s))
		}); bad {
			t.Fatalf("parsing %q panics: %s", s, msg)
		}
		if (err == nil) != (uerr == nil) || err == nil && *a != u {
			t.Fatalf("parsing %q: NewAssetFromString says %s, %v, UnmarshalText %s, %v", s, show(a), err, show(u), uerr)
		}
		if !must {
			if err == nil {
				t.Fatalf("bad asset text %q is accepted as %s", s, show(a))
			}
			if panics := doesPanic(func() { a = chain.A(s) }); !panics {
				t.Fatalf("bad asset text %q is accepted by A as %s", s, show(a))
			}
			return
		}
		stats.Count("asset text: denotes an asset")
		if err == nil {
			if a.Value != units.Int64() || a.Symbol.Decimals() != dec || a.Symbol.Name() != code {
				t.Fatalf("%q is read as %d units, %d decimals, code %q", s, a.Value, a.Symbol.Decimals(), a.Symbol.Name())
			}
		} else if s == ref.AssetText(units.Int64(), dec, code) {
			t.Fatalf("%q is rejected: %v", s, err)
		}
	})
	check(t, "symbol text", 30000, func(t *rapid.T) {
		dec, code := rapid.IntRange(0, 18).Draw(t, "dec"), gCodeText(t)
		ds := fmt.Sprint(dec)
		odd := false
		if rapid.Bool().Draw(t, "oddprec") {
			odd = true
			ds = pick(t, "prec", "", "19", "20", "99", "127", "128", "255", "256", "260", "-1", "-4", "4.0", "x", "1e1", " 4", "4 ", "0x4", "4294967300", "18446744073709551620", "-252", "-238")
		}
		sep := ","
		if chance(t, "sep", 12) {
			odd = true
			sep = pick(t, "sepchar", "", " ", ",,", ".", ", ", " ,", ",A,")
		}
		s := maybeLong(t, ds+sep+code)
		free := false // leading zeros may be accepted or not
		if p := strings.SplitN(s, ",", 2); len(p) == 2 && reCanon.MatchString(p[0]) && len(p[0]) < 3 {
			v, _ := strconv.Atoi(p[0])
			odd, dec, code = v < 0 || v > 18, v, p[1]
		} else if len(p) == 2 && p[0] != "" && strings.Trim(p[0], "0123456789") == "" && len(strings.TrimLeft(p[0], "0")) < 3 {
			v, _ := strconv.Atoi("0" + strings.TrimLeft(p[0], "0"))
			odd, dec, code = v > 18, v, p[1]
			free = true
		} else {
			odd = true
		}
		bad := odd || code != "" && !reCode.MatchString(code)
		stats.Case("symbol text", bad, strconv.Quote(s))
		u := chain.Symbol(99)
		var err, uerr, cerr error
		var v chain.Symbol
		var sc chain.SymbolCode = 99
		if msg, p := noPanic(func() {
			v, err = chain.NewSymbolFromString(s)
			uerr = u.UnmarshalText([]byte(s))
			cerr = sc.UnmarshalText([]byte(code))
		}); p {
			t.Fatalf("parsing %q panics: %s", s, msg)
		}
		if (err == nil) != (uerr == nil) || err == nil && v != u {
			t.Fatalf("parsing %q: NewSymbolFromString %d, %v, UnmarshalText %d, %v", s, v, err, u, uerr)
		}
		if bad && err == nil {
			t.Fatalf("bad symbol text %q is accepted as 0x%x", s, uint64(v))
		}
		if !odd && reCode.MatchString(code) && (err != nil && !free || err == nil && uint64(v) != ref.SymbolRaw(dec, code)) {
			t.Fatalf("symbol text %q gives 0x%x, %v", s, uint64(v), err)
		}
		if code != "" && reCode.MatchString(code) != (cerr == nil) {
			t.Fatalf("symbol code %q gives 0x%x, %v", code, uint64(sc), cerr)
		}
	})
	check(t, "new symbol", 10000, func(t *rapid.T) {
		p, code := gU8(t, "p"), gCodeText(t)
		bad := p > 18 || code != "" && !reCode.MatchString(code)
		stats.Case("symbol parts", bad, fmt.Sprint(p, code))
		s, err := chain.NewSymbol(p, code)
		if bad != (err != nil) && code != "" || bad && err == nil {
			t.Fatalf("NewSymbol(%d, %q) gives 0x%x, %v", p, code, uint64(s), err)
		}
		if err == nil && uint64(s) != ref.SymbolRaw(int(p), code) {
			t.Fatalf("NewSymbol(%d, %q) gives 0x%x", p, code, uint64(s))
		}
	})
}

// ---- C16 ----------------------------------------------------------------------

var reTime = regexp.MustCompile(`^(\d{4})-(\d{2})-(\d{2})T(\d{1,2}):(\d{2}):(\d{2})(?:[.,](\d+))?$`)

// timeOf reads a UTC text leniently: seconds since 1970 and nanoseconds.
func timeOf(s string) (sec int64, nanos *big.Rat, ok bool) {
	m := reTime.FindStringSubmatch(strings.TrimSuffix(s, "Z"))
	if m == nil {
		return 0, nil, false
	}
	n := func(i int) int64 { v, _ := strconv.ParseInt(m[i], 10, 64); return v }
	y, mo, d := n(1), n(2), n(3)
	if mo < 1 || mo > 12 || d < 1 || n(4) > 23 || n(5) > 59 || n(6) > 59 {
		return 0, nil, false
	}
	leap := y%4 == 0 && (y%100 != 0 || y%400 == 0)
	ml := []int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
	if leap {
		ml[1] = 29
	}
	if d > ml[mo-1] {
		return 0, nil, false
	}
	// days before year y, counted from year 0
	days := y * 365
	if y > 0 {
		days += (y-1)/4 - (y-1)/100 + (y-1)/400 + 1
	}
	days -= 719528 // 1970-01-01
	for i := int64(0); i < mo-1; i++ {
		days += ml[i]
	}
	days += d - 1
	f := new(big.Rat)
	if m[7] != "" {
		num, _ := new(big.Int).SetString(m[7], 10)
		f.SetFrac(num, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(len(m[7]))), nil))
	}
	return days*86400 + n(4)*3600 + n(5)*60 + n(6), f, true
}

func gZone(t *rapid.T) *time.Location {
	return time.FixedZone("Z", rapid.IntRange(-14*3600, 14*3600).Draw(t, "zone"))
}

func gTimeText(t *rapid.T) string {
	us := gMicros(t, "tp")
	if chance(t, "bts", 3) {
		us = 946684800000000 + int64(gU32(t, "slots"))*500000 + int64(pick(t, "off", 0, 0, 1000, -1000, 249000, 250000, 251000, -250000, -249000))
	}
	s, ok := ref.UTCText(us, pick(t, "digits", 0, 3, 3, 3))
	if !ok {
		s = pick(t, "year", "10000-01-01T00:00:00.000", "-0001-01-01T00:00:00", "99999-12-31T23:59:59.999", "1970-01-01T00:00:00", "2106-02-07T06:28:16", "1969-12-31T23:59:59", "1999-12-31T23:59:59.500", "2068-01-19T03:14:08.000")
	}
	switch rapid.IntRange(0, 7).Draw(t, "mut") {
	case 0, 1:
		return s
	case 2:
		return s + "Z"
	case 3:
		b := []byte(s)
		for k := rapid.IntRange(1, 2).Draw(t, "edits"); k > 0; k-- {
			b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] = pick(t, "c", byte('0'), '1', '2', '3', '5', '6', '9', '-', ':', 'T', 'Z', ' ', '.', ',', '+', 0, 'a', 0xff)
		}
		return string(b)
	case 4:
		return s[:rapid.IntRange(0, len(s)).Draw(t, "cut")]
	case 5:
		return s + pick(t, "tail", "z", "ZZ", "+00:00", " ", "0", "5", ".5", "00", " UTC", "Z ", "-01:00", ",5", ".", "999999")
	case 6:
		i := rapid.IntRange(0, len(s)).Draw(t, "at")
		return s[:i] + pick(t, "ins", " ", "0", "-", "Z", "+", "1") + s[i:]
	default:
		return pick(t, "odd", "", "Z", "now", "0", "1546300800", "2019-01-01", "2019-02-29T00:00:00.000", "2020-02-29T00:00:00.000", "2100-02-29T00:00:00", "2019-13-01T00:00:00", "2019-00-01T00:00:00.000", "2019-01-00T00:00:00.000", "2019-01-32T00:00:00", "2019-04-31T00:00:00.000", "2019-01-01T24:00:00.000", "2019-01-01T23:60:00.000", "2019-01-01T23:59:60", "2019-01-01 00:00:00.000", "2019/01/01T00:00:00.000")
	}
}

func TestC16(t *testing.T) {
	oldLocal := time.Local
	defer func() { time.Local = oldLocal }()
	epoch := time.Unix(0, 0)
	check(t, "time point", 25000, func(t *rapid.T) {
		v := gMicros(t, "tp")
		time.Local = gZone(t)
		tp := chain.TimePoint(v)
		stats.Case("time point", v != 0, fmt.Sprint(v))
		inst := tp.Time()
		sec, us := v/1000000, v%1000000
		if us < 0 {
			sec, us = sec-1, us+1000000
		}
		if inst.Unix() != sec || int64(inst.Nanosecond()) != us*1000 {
			t.Fatalf("time point %d is the instant %v", v, inst.UTC())
		}
		if b := chain.NewTimePoint(inst.In(gZone(t))); b != tp {
			t.Fatalf("time point %d goes through an instant to %d", v, b)
		}
		// sub-microsecond parts round down
		ns := rapid.IntRange(0, 999).Draw(t, "ns")
		if v < math.MaxInt64-1 {
			if b := chain.NewTimePoint(inst.Add(time.Duration(ns)).In(gZone(t))); b != tp {
				t.Fatalf("%d µs + %d ns converts to time point %d", v, ns, b)
			}
		}
		want, ok := ref.UTCText(v, 3)
		if !ok {
			return
		}
		if s := tp.String(); s != want {
			t.Fatalf("time point %d renders as %q with zone %v, want %q", v, s, time.Local, want)
		}
		if b, err := tp.MarshalText(); err != nil || string(b) != want {
			t.Fatalf("time point %d: MarshalText %q, %v", v, b, err)
		}
		ms := v - us%1000
		for _, s := range []string{want, want + "Z"} {
			b, err := chain.NewTimePointFromString(s)
			u := chain.TimePoint(42)
			uerr := u.UnmarshalText([]byte(s))
			if err != nil || uerr != nil || int64(b) != ms || int64(u) != ms {
				t.Fatalf("time point text %q parses to %d, %v and %d, %v; want %d", s, b, err, u, uerr, ms)
			}
		}
	})
	check(t, "time point sec", 15000, func(t *rapid.T) {
		v := gU32(t, "tps")
		time.Local = gZone(t)
		x := chain.TimePointSec(v)
		stats.Case("time point sec", v != 0, fmt.Sprint(v))
		if !x.Time().Equal(epoch.Add(time.Duration(v) * time.Second)) {
			t.Fatalf("time point sec %d is %v", v, x.Time().UTC())
		}
		off := time.Duration(pick(t, "ns", int64(0), 1, 499999999, 500000000, 500000001, 999999999, rapid.Int64Range(0, 999999999).Draw(t, "off")))
		if b := chain.NewTimePointSec(x.Time().Add(off).In(gZone(t))); b != x {
			t.Fatalf("%d s + %v converts to %d", v, off, b)
		}
		want := secText(v)
		if s := x.String(); s != want {
			t.Fatalf("time point sec %d renders as %q with zone %v, want %q", v, s, time.Local, want)
		}
		if b, err := x.MarshalText(); err != nil || string(b) != want {
			t.Fatalf("time point sec %d: MarshalText %q, %v", v, b, err)
		}
		for _, s := range []string{want, want + "Z"} {
			b, err := chain.NewTimePointSecFromString(s)
			u := chain.TimePointSec(42)
			uerr := u.UnmarshalText([]byte(s))
			if err != nil || uerr != nil || b != x || u != x {
				t.Fatalf("time point sec text %q parses to %d, %v and %d, %v; want %d", s, b, err, u, uerr, v)
			}
		}
	})
	check(t, "block timestamp", 15000, func(t *rapid.T) {
		v := gU32(t, "bts")
		time.Local = gZone(t)
		x := chain.BlockTimestamp(v)
		stats.Case("block timestamp", v != 0, fmt.Sprint(v))
		inst := epoch.Add(946684800 * time.Second).Add(time.Duration(v) * 500 * time.Millisecond)
		if !x.Time().Equal(inst) {
			t.Fatalf("block timestamp %d is %v, want %v", v, x.Time().UTC(), inst.UTC())
		}
		// anything less than a quarter second away goes to this slot
		off := time.Duration(pick(t, "ns", int64(0), 1, -1, 249999999, -249999999, 100000000, rapid.Int64Range(-249999999, 249999999).Draw(t, "off")))
		if b := chain.NewBlockTimestamp(inst.Add(off).In(gZone(t))); b != x {
			t.Fatalf("slot %d + %v converts to slot %d", v, off, b)
		}
		if v > 0 && v < math.MaxUint32 {
			side := pick(t, "side", -1, 1)
			if b := chain.NewBlockTimestamp(inst.Add(time.Duration(side) * 250 * time.Millisecond)); b != x && int64(b) != int64(v)+int64(side) {
				t.Fatalf("slot %d + %d ms converts to slot %d", v, side*250, b)
			}
		}
		want, _ := ref.UTCText(946684800000000+int64(v)*500000, 3)
		if s := x.String(); s != want {
			t.Fatalf("block timestamp %d renders as %q with zone %v, want %q", v, s, time.Local, want)
		}
		if b, err := x.MarshalText(); err != nil || string(b) != want {
			t.Fatalf("block timestamp %d: MarshalText %q, %v", v, b, err)
		}
		for _, s := range []string{want, want + "Z"} {
			b, err := chain.NewBlockTimestampFromString(s)
			u := chain.BlockTimestamp(42)
			uerr := u.UnmarshalText([]byte(s))
			if err != nil || uerr != nil || b != x || u != x {
				t.Fatalf("block timestamp text %q parses to %d, %v and %d, %v; want %d", s, b, err, u, uerr, v)
			}
		}
		// text of a time between the slots is of the nearest one
		ms := rapid.Int64Range(-249, 249).Draw(t, "ms")
		near, ok := ref.UTCText(946684800000000+int64(v)*500000+ms*1000, 3)
		if !ok {
			return
		}
		b, err := chain.NewBlockTimestampFromString(near)
		if v > 0 && v < math.MaxUint32 && (err != nil || b != x) {
			t.Fatalf("block timestamp text %q parses to %d, %v; want %d", near, b, err, v)
		}
	})
	check(t, "text", 40000, func(t *rapid.T) {
		s := maybeLong(t, gTimeText(t))
		time.Local = gZone(t)
		sec, frac, ok := timeOf(s)
		stats.Case("time text", true, strconv.Quote(s))
		var tp, tp2 chain.TimePoint = 42, 42
		var ts, ts2 chain.TimePointSec = 42, 42
		var bt, bt2 chain.BlockTimestamp = 42, 42
		var e [6]error
		if msg, bad := noPanic(func() {
			tp, e[0] = chain.NewTimePointFromString(s)
			e[1] = tp2.UnmarshalText([]byte(s))
			ts, e[2] = chain.NewTimePointSecFromString(s)
			e[3] = ts2.UnmarshalText([]byte(s))
			bt, e[4] = chain.NewBlockTimestampFromString(s)
			e[5] = bt2.UnmarshalText([]byte(s))
		}); bad {
			t.Fatalf("parsing %q panics: %s", s, msg)
		}
		for i := 0; i < 6; i += 2 {
			if (e[i] == nil) != (e[i+1] == nil) {
				t.Fatalf("parsing %q: the functions disagree: %v, %v", s, e[i], e[i+1])
			}
		}
		if e[0] == nil && tp != tp2 || e[2] == nil && ts != ts2 || e[4] == nil && bt != bt2 {
			t.Fatalf("parsing %q: the functions disagree: %d %d, %d %d, %d %d", s, tp, tp2, ts, ts2, bt, bt2)
		}
		if !ok {
			if e[0] == nil || e[2] == nil || e[4] == nil {
				t.Fatalf("malformed time %q is accepted: %d %v, %d %v, %d %v", s, tp, e[0], ts, e[2], bt, e[4])
			}
			return
		}
		stats.Count("time text: denotes an instant")
		floor := func(r *big.Rat) int64 { return new(big.Int).Div(r.Num(), r.Denom()).Int64() }
		exact := new(big.Rat).Add(new(big.Rat).SetInt64(sec), frac)
		us := floor(new(big.Rat).Mul(exact, new(big.Rat).SetInt64(1000000)))
		if e[0] == nil && int64(tp) != us {
			t.Fatalf("time point %q parses to %d, not %d", s, tp, us)
		}
		if e[2] == nil && int64(ts) != sec {
			t.Fatalf("time point sec %q parses to %d, it is %d", s, ts, sec)
		}
		if e[4] == nil {
			// distance to the slot is at most a quarter of a second
			slot := new(big.Rat).SetFrac64(946684800*2+int64(bt), 2)
			d := new(big.Rat).Sub(exact, slot)
			if d.Abs(d).Cmp(new(big.Rat).SetFrac64(1, 4)) > 0 {
				t.Fatalf("block timestamp %q parses to slot %d", s, bt)
			}
		}
	})
}

// ---- C17 ----------------------------------------------------------------------

var two128 = new(big.Int).Lsh(big.NewInt(1), 128)
var two127 = new(big.Int).Lsh(big.NewInt(1), 127)

func revBytes(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

func gIntText(t *rapid.T) string {
	switch rapid.IntRange(0, 7).Draw(t, "how") {
	case 7: // a number or text of the code
		if rapid.Bool().Draw(t, "dtext") {
			return dText(t, "d")
		}
		if v := dInt(t, "d"); rapid.Bool().Draw(t, "signed") {
			return strconv.FormatInt(int64(v), 10)
		} else {
			return strconv.FormatUint(v, 10)
		}
	case 0, 1: // around a limit
		k := pick(t, "limit", 0, 7, 8, 16, 31, 32, 33, 63, 64, 65, 126, 127, 128, 129, 200)
		v := new(big.Int).Lsh(big.NewInt(1), uint(k))
		v.Add(v, big.NewInt(int64(rapid.IntRange(-3, 3).Draw(t, "off"))))
		if rapid.Bool().Draw(t, "neg") {
			v.Neg(v)
		}
		return v.String()
	case 2:
		return pick(t, "odd", "", "-", "+", "+5", "-0", "00", "007", "-007", "1e3", "1.0", "1.", ".5", "0x10", "0b1", "0o7", "1_000", " 1", "1 ", "1\n", "\t1", "NaN", "Infinity", "null", "true", "--1", "-+1", "1-", "١٢", "1,000", "1a", "a", "-9223372036854775808", "18446744073709551616", "4294967295", "4294967296", "99999999999999999999999999999999999999999999999")
	case 3:
		b := []byte(strconv.FormatUint(gU64(t, "v"), 10))
		b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] = gU8(t, "c")
		return string(b)
	case 4:
		n := rapid.IntRange(36, 60).Draw(t, "n")
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + rapid.IntRange(0, 9).Draw(t, "digit"))
		}
		return string(b)
	default:
		return strconv.FormatInt(gI64(t, "v"), 10)
	}
}

var reInt = regexp.MustCompile(`^[+-]?[0-9]+$`)
var reCanon = regexp.MustCompile(`^(0|-?[1-9][0-9]*)$`)

func TestC17(t *testing.T) {
	check(t, "uint128", 25000, func(t *rapid.T) {
		lo, hi := gU64(t, "lo"), gU64(t, "hi")
		want := ref.Uint128Big(lo, hi)
		v := chain.Uint128{Lo: lo, Hi: hi}
		stats.Case("uint128", hi != 0, want.String())
		le16 := ref.Cat(le(lo, 8), le(hi, 8))
		big0 := v.BigInt()
		if big0.Cmp(want) != 0 || v.String() != want.String() {
			t.Fatalf("uint128 hi %x lo %x: BigInt %v, String %q, want %v", hi, lo, big0, v.String(), want)
		}
		if n := chain.NewUint128(want); n != v {
			t.Fatalf("NewUint128(%v) = %s", want, show(n))
		}
		if n, err := chain.NewUint128FromString(want.String()); err != nil || n != v {
			t.Fatalf("NewUint128FromString(%v) = %s, %v", want, show(n), err)
		}
		if b := v.Bytes(binary.LittleEndian); string(b) != string(le16) {
			t.Fatalf("%v little-endian is %x", want, b)
		}
		if b := v.Bytes(binary.BigEndian); string(b) != string(revBytes(le16)) {
			t.Fatalf("%v big-endian is %x", want, b)
		}
		js, err := json.Marshal(v)
		if err != nil || string(js) != q(want.String()) {
			t.Fatalf("%v in JSON is %s, %v", want, js, err)
		}
		back := chain.Uint128{Lo: 1, Hi: 2}
		if err := json.Unmarshal(js, &back); err != nil || back != v {
			t.Fatalf("%s reads back as %s, %v", js, show(back), err)
		}
	})
	check(t, "int128", 25000, func(t *rapid.T) {
		lo, hi := gU64(t, "lo"), gU64(t, "hi")
		want := ref.Int128Big(lo, hi)
		v := chain.Int128{Lo: lo, Hi: hi}
		stats.Case("int128", hi != 0, want.String())
		le16 := ref.Cat(le(lo, 8), le(hi, 8))
		if b := v.BigInt(); b.Cmp(want) != 0 || v.String() != want.String() {
			t.Fatalf("int128 hi %x lo %x: BigInt %v, String %q, want %v", hi, lo, b, v.String(), want)
		}
		if n := chain.NewInt128(want); n != v {
			t.Fatalf("NewInt128(%v) = %s", want, show(n))
		}
		if n, err := chain.NewInt128FromString(want.String()); err != nil || n != v {
			t.Fatalf("NewInt128FromString(%v) = %s, %v", want, show(n), err)
		}
		if b := v.Bytes(binary.LittleEndian); string(b) != string(le16) {
			t.Fatalf("%v little-endian is %x", want, b)
		}
		if b := v.Bytes(binary.BigEndian); string(b) != string(revBytes(le16)) {
			t.Fatalf("%v big-endian is %x", want, b)
		}
		js, err := json.Marshal(v)
		if err != nil || string(js) != q(want.String()) {
			t.Fatalf("%v in JSON is %s, %v", want, js, err)
		}
		back := chain.Int128{Lo: 1, Hi: 2}
		if err := json.Unmarshal(js, &back); err != nil || back != v {
			t.Fatalf("%s reads back as %s, %v", js, show(back), err)
		}
	})
	check(t, "big", 10000, func(t *rapid.T) {
		// numbers around and beyond the range: never another number
		n := new(big.Int).SetBytes(gBytes(t, "bytes", 20))
		switch rapid.IntRange(0, 3).Draw(t, "near") {
		case 0:
			n = new(big.Int).Add(two128, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "off"))))
		case 1:
			n = new(big.Int).Add(two127, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "off"))))
		}
		if rapid.Bool().Draw(t, "neg") {
			n.Neg(n)
		}
		uin := n.Sign() >= 0 && n.Cmp(two128) < 0
		iin := n.Cmp(two127) < 0 && n.Cmp(new(big.Int).Neg(two127)) >= 0
		stats.Case("big integer", !uin || !iin, n.String())
		var u chain.Uint128
		msg, bad := noPanic(func() { u = chain.NewUint128(n) })
		if bad && uin || !bad && ref.Uint128Big(u.Lo, u.Hi).Cmp(n) != 0 {
			t.Fatalf("NewUint128(%v) = %s %s", n, show(u), msg)
		}
		var i chain.Int128
		msg, bad = noPanic(func() { i = chain.NewInt128(n) })
		if bad && iin || !bad && ref.Int128Big(i.Lo, i.Hi).Cmp(n) != 0 {
			t.Fatalf("NewInt128(%v) = %s %s", n, show(i), msg)
		}
	})
	check(t, "text", 40000, func(t *rapid.T) {
		s := maybeLong(t, gIntText(t))
		var want *big.Int
		if reInt.MatchString(s) {
			want, _ = new(big.Int).SetString(s, 10)
		}
		uin := want != nil && want.Sign() >= 0 && want.Cmp(two128) < 0
		iin := want != nil && want.Cmp(two127) < 0 && want.Cmp(new(big.Int).Neg(two127)) >= 0
		stats.Case("integer text", !uin || !iin, strconv.Quote(s))
		var u, u2 chain.Uint128
		var i, i2 chain.Int128
		var e [4]error
		if msg, bad := noPanic(func() {
			u, e[0] = chain.NewUint128FromString(s)
			e[1] = u2.UnmarshalText([]byte(s))
			i, e[2] = chain.NewInt128FromString(s)
			e[3] = i2.UnmarshalText([]byte(s))
		}); bad {
			t.Fatalf("parsing %q panics: %s", s, msg)
		}
		canon := reCanon.MatchString(s)
		if (e[0] == nil) != (e[1] == nil) || (e[2] == nil) != (e[3] == nil) || e[0] == nil && u != u2 || e[2] == nil && i != i2 {
			t.Fatalf("parsing %q: the functions disagree: %s %v, %s %v, %s %v, %s %v", s, show(u), e[0], show(u2), e[1], show(i), e[2], show(i2), e[3])
		}
		if !uin && e[0] == nil || uin && canon && e[0] != nil {
			t.Fatalf("as uint128, %q gives %s, %v", s, show(u), e[0])
		}
		if !iin && e[2] == nil || iin && canon && e[2] != nil {
			t.Fatalf("as int128, %q gives %s, %v", s, show(i), e[2])
		}
		if e[0] == nil && ref.Uint128Big(u.Lo, u.Hi).Cmp(want) != 0 {
			t.Fatalf("as uint128, %q gives %s", s, show(u))
		}
		if e[2] == nil && ref.Int128Big(i.Lo, i.Hi).Cmp(want) != 0 {
			t.Fatalf("as int128, %q gives %s", s, show(i))
		}
	})
	check(t, "json", 25000, func(t *rapid.T) {
		v := gU64(t, "v")
		if rapid.Bool().Draw(t, "near") {
			v = uint64(1)<<32 + uint64(int64(rapid.IntRange(-3, 3).Draw(t, "off")))
		}
		txt := strconv.FormatUint(v, 10)
		stats.Case("uint64 JSON", v > 255, txt)
		js, err := json.Marshal(chain.Uint64(v))
		if err != nil || string(js) != uintJSON(v) {
			t.Fatalf("%d in JSON is %s, %v", v, js, err)
		}
		for _, s := range []string{txt, q(txt), " " + txt + "\n", " " + q(txt) + " "} {
			var u chain.Uint64 = 9
			if err := json.Unmarshal([]byte(s), &u); err != nil || uint64(u) != v {
				t.Fatalf("JSON %s reads as %d, %v", s, u, err)
			}
			var bn chain.BlockNum = 9
			err := json.Unmarshal([]byte(s), &bn)
			if (err == nil) != (v <= math.MaxUint32) || err == nil && uint64(bn) != v {
				t.Fatalf("JSON %s reads as block number %d, %v", s, bn, err)
			}
		}
		if v <= math.MaxUint32 {
			if js, err := json.Marshal(chain.BlockNum(v)); err != nil || string(js) != txt {
				t.Fatalf("block number %d in JSON is %s, %v", v, js, err)
			}
		}
	})
	check(t, "bad json", 25000, func(t *rapid.T) {
		s := maybeLong(t, gIntText(t))
		js := s
		if rapid.Bool().Draw(t, "quoted") {
			b, _ := json.Marshal(s)
			js = string(b)
		} else if chance(t, "other", 3) {
			js = pick(t, "value", "null", "true", "[]", "[1]", "{}", `{"a":1}`, `""`, "1.5", "1e2", "-1", "-0", `"\u0031"`, `"1`, `1"`, `" 1"`, `"1 "`, "1 2", "", `"null"`)
		}
		var u chain.Uint64 = 77
		var bn chain.BlockNum = 77
		var e1, e2, e3, e4 error
		var u2 chain.Uint64 = 77
		var bn2 chain.BlockNum = 77
		if msg, bad := noPanic(func() {
			e1 = json.Unmarshal([]byte(js), &u)
			e2 = json.Unmarshal([]byte(js), &bn)
			e3 = u2.UnmarshalJSON([]byte(js))
			e4 = bn2.UnmarshalJSON([]byte(js))
		}); bad {
			t.Fatalf("reading %s panics: %s", js, msg)
		}
		// what the JSON denotes, if anything
		var want *big.Int
		var x interface{}
		d := json.NewDecoder(strings.NewReader(js))
		d.UseNumber()
		if json.Valid([]byte(js)) && d.Decode(&x) == nil {
			txt := ""
			switch x := x.(type) {
			case string:
				txt = x
			case json.Number:
				txt = x.String()
			}
			if reInt.MatchString(txt) {
				want, _ = new(big.Int).SetString(txt, 10)
			}
		}
		okU := want != nil && want.Sign() >= 0 && want.IsUint64()
		okB := okU && want.Uint64() <= math.MaxUint32
		stats.Case("JSON of odd integers", !okU, js)
		if e1 == nil && (!okU || uint64(u) != want.Uint64()) {
			t.Fatalf("JSON %s is accepted as uint64 %d", js, u)
		}
		if e2 == nil && (!okB || uint64(bn) != want.Uint64()) {
			t.Fatalf("JSON %s is accepted as block number %d", js, bn)
		}
		if json.Valid([]byte(js)) {
			if e3 == nil && (!okU || uint64(u2) != want.Uint64()) {
				t.Fatalf("UnmarshalJSON(%s) is accepted as uint64 %d", js, u2)
			}
			if e4 == nil && (!okB || uint64(bn2) != want.Uint64()) {
				t.Fatalf("UnmarshalJSON(%s) is accepted as block number %d", js, bn2)
			}
		}
	})
}
