package props

import (
	"bytes"
	"crypto"
	"crypto/sha256"
	"fmt"
	"hash"
	"strconv"
	"strings"
	"testing"

	"github.com/greymass/go-eosio/pkg/base58"
	"github.com/greymass/go-eosio/pkg/chain"
	"github.com/greymass/go-eosio/pkg/ripemd160"
	"pgregory.net/rapid"

	"verif/ref"
)

const b58chars = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// readVaru reads a canonical varuint32.
func readVaru(b []byte) (v uint64, rest []byte, ok bool) {
	for i := 0; i < len(b) && i < 5; i++ {
		v |= uint64(b[i]&0x7f) << (7 * i)
		if b[i] < 0x80 {
			return v, b[i+1:], v < 1<<32 && (i == 0 || b[i] != 0)
		}
	}
	return 0, nil, false
}

// rightShape: data is what a key or signature of that type consists of.
func rightShape(prefix, typ string, d []byte) bool {
	chunk := func() bool {
		n, rest, ok := readVaru(d)
		if !ok || uint64(len(rest)) < n {
			return false
		}
		d = rest[n:]
		return true
	}
	size := map[string]int{"PUB": 33, "SIG": 65}[prefix]
	if typ != "WA" {
		return len(d) == size
	}
	if prefix == "PUB" {
		size++
	}
	if len(d) < size {
		return false
	}
	d = d[size:]
	if !chunk() || prefix == "SIG" && !chunk() {
		return false
	}
	return len(d) == 0
}

// keyOfText is what a PUB_/SIG_ text denotes.
func keyOfText(prefix, s string) (typ chain.KeyType, data []byte, ok bool) {
	p := strings.SplitN(s, "_", 3)
	if len(p) != 3 || p[0] != prefix {
		return 0, nil, false
	}
	n := strings.Index("K1R1WA", p[1])
	if n < 0 || n%2 != 0 || len(p[1]) != 2 {
		return 0, nil, false
	}
	b, valid := ref.Base58Dec(p[2])
	if !valid || len(b) < 4 {
		return 0, nil, false
	}
	data = b[:len(b)-4]
	sum := ref.RIPEMD160(ref.Cat(data, []byte(p[1])))
	if !bytes.Equal(sum[:4], b[len(b)-4:]) {
		return 0, nil, false
	}
	return chain.KeyType(n / 2), data, true
}

// gEdit alters a text.
func gEdit(t *rapid.T, s string) string {
	if chance(t, "long", 60) {
		return gLong(t, s, false)
	}
	b := []byte(s)
	ch := func() byte {
		switch rapid.IntRange(0, 3).Draw(t, "chkind") {
		case 0:
			return gU8(t, "ch")
		case 1:
			return pick(t, "chodd", byte('0'), 'O', 'I', 'l', '_', ' ', '\n', 0, 0x80, 0xff, '+', '/', '-', '.')
		default:
			return b58chars[rapid.IntRange(0, 57).Draw(t, "ch58")]
		}
	}
	switch rapid.IntRange(0, 9).Draw(t, "edit") {
	case 9: // insert or overwrite with something that the code mentions
		i := rapid.IntRange(0, len(b)).Draw(t, "at")
		d := dStr(t, "edit")
		if rapid.Bool().Draw(t, "over") {
			return s[:i] + d + s[min(len(s), i+len(d)):]
		}
		return s[:i] + d + s[i:]
	case 0: // cut at the end
		return s[:rapid.IntRange(0, len(s)).Draw(t, "cut")]
	case 1: // cut in front
		return s[rapid.IntRange(0, len(s)).Draw(t, "cut"):]
	case 2: // insert
		i := rapid.IntRange(0, len(b)).Draw(t, "at")
		return s[:i] + string([]byte{ch()}) + s[i:]
	case 3: // remove one
		if len(b) > 0 {
			i := rapid.IntRange(0, len(b)-1).Draw(t, "at")
			return s[:i] + s[i+1:]
		}
	case 4: // swap two
		if len(b) > 1 {
			i := rapid.IntRange(0, len(b)-2).Draw(t, "at")
			b[i], b[i+1] = b[i+1], b[i]
		}
	case 5: // two characters
		for k := 0; k < 2 && len(b) > 0; k++ {
			b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] = ch()
		}
	case 6: // other case
		if len(b) > 0 {
			i := rapid.IntRange(0, len(b)-1).Draw(t, "at")
			b[i] ^= 0x20
		}
	case 7: // append
		return s + string([]byte{ch()})
	default:
		if len(b) > 0 {
			b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] = ch()
		}
	}
	return string(b)
}

func TestC18(t *testing.T) {
	largeC18(t)
	type keyLike struct {
		typ  chain.KeyType
		data []byte
	}
	// parse gives what both parsing functions say
	parse := func(t *rapid.T, prefix, s string) (k keyLike, err error) {
		var e2 error
		var k2 keyLike
		if msg, bad := noPanic(func() {
			if prefix == "PUB" {
				var p *chain.PublicKey
				if p, err = chain.NewPublicKeyFromString(s); err == nil {
					k = keyLike{p.Type, p.Data}
				}
				q := chain.PublicKey{Type: chain.WA, Data: []byte{1, 2, 3}}
				e2 = q.UnmarshalText([]byte(s))
				k2 = keyLike{q.Type, q.Data}
			} else {
				var p *chain.Signature
				if p, err = chain.NewSignatureString(s); err == nil {
					k = keyLike{p.Type, p.Data}
				}
				q := chain.Signature{Type: chain.WA, Data: []byte{1, 2, 3}}
				e2 = q.UnmarshalText([]byte(s))
				k2 = keyLike{q.Type, q.Data}
			}
		}); bad {
			t.Fatalf("parsing %q panics: %s", s, msg)
		}
		if (err == nil) != (e2 == nil) || err == nil && (k.typ != k2.typ || !bytes.Equal(k.data, k2.data)) {
			t.Fatalf("parsing %q: the functions disagree: %v %v, %v %v", s, k, err, k2, e2)
		}
		return
	}
	gen := func(t *rapid.T) (prefix string, kt chain.KeyType, data []byte) {
		prefix, kt = pick(t, "what", "PUB", "SIG"), gKeyType(t)
		for i := 0; ; i++ {
			if prefix == "PUB" {
				data = gKeyData(t, kt)
			} else {
				data = gSigData(t, kt)
			}
			if len(data) < 600 || i > 3 {
				break
			}
		}
		if len(data) > 2500 {
			kt = 0
			data = gFill(t, "key", map[string]int{"PUB": 33, "SIG": 65}[prefix])
		}
		return
	}
	text := func(prefix string, kt chain.KeyType, data []byte) (string, string) {
		if prefix == "PUB" {
			k := chain.NewPublicKey(kt, data)
			b, _ := k.MarshalText()
			return k.String(), string(b)
		}
		k := chain.NewSignature(kt, data)
		b, _ := k.MarshalText()
		return k.String(), string(b)
	}
	check(t, "in place", 3000, func(t *rapid.T) {
		prefix, kt, data := gen(t)
		if prefix == "PUB" {
			inPlace(t, "text of a changed key", *chain.NewPublicKey(kt, data), func(p interface{}) string {
				k := p.(*chain.PublicKey)
				if len(data) != 33 || k.Type != chain.K1 {
					return k.String()
				}
				return k.String() + " " + k.LegacyString("EOS")
			})
			return
		}
		inPlace(t, "text of a changed signature", *chain.NewSignature(kt, data), func(p interface{}) string { return p.(*chain.Signature).String() })
	})
	check(t, "round trip", 8000, func(t *rapid.T) {
		prefix, kt, data := gen(t)
		want := ref.KeyText(prefix, keyName(kt), data)
		stats.Case(prefix+"_"+keyName(kt)+" round trip", true, want)
		s, s2 := text(prefix, kt, data)
		if s != want || s2 != want {
			t.Fatalf("%s key or signature of type %d with data %s renders as %q and %q, EOSIO writes %q", prefix, kt, hexs(data), s, s2, want)
		}
		k, err := parse(t, prefix, want)
		if err != nil || k.typ != kt || !bytes.Equal(k.data, data) {
			t.Fatalf("%q parses to %v, %v", want, k, err)
		}
	})
	check(t, "legacy", 8000, func(t *rapid.T) {
		d := gFill(t, "key", 33)
		d[0] = 2 + d[0]&1
		prefix := pick(t, "prefix", "EOS", "", "FIO", "PUB", "E", "EOSIOCHAIN", "TLOS", "ABC_", "1", "0", "_", "é", "EOS5", gValidString(t, "any"))
		if strings.HasPrefix(prefix, "PUB_") {
			prefix = "X"
		}
		want := ref.LegacyKeyText(prefix, d)
		stats.Case("legacy round trip", true, want)
		k := chain.PublicKey{Type: chain.K1, Data: d}
		if s := k.LegacyString(prefix); s != want {
			t.Fatalf("K1 key %x with prefix %q renders as %q, EOSIO writes %q", d, prefix, s, want)
		}
		p, err := parse(t, "PUB", want)
		if err != nil || p.typ != chain.K1 || !bytes.Equal(p.data, d) {
			t.Fatalf("%q parses to %v, %v", want, p, err)
		}
		// there is no such text for other key types
		for _, kt := range []chain.KeyType{chain.R1, chain.WA, chain.KeyType(3 + gU8(t, "type")%253)} {
			o := chain.PublicKey{Type: kt, Data: d}
			var s string
			if bad := doesPanic(func() { s = o.LegacyString(prefix) }); !bad {
				t.Fatalf("a key of type %d renders as the legacy text %q of a K1 key", kt, s)
			}
		}
		// altered
		tail := want[len(want)-50:]
		bad := tail
		for bad == tail {
			bad = gEdit(t, tail)
			if chance(t, "giveup", 10) {
				return
			}
		}
		s := prefix + bad
		if strings.HasPrefix(s, "PUB_") {
			return
		}
		ok := false
		var data []byte
		if len(s) >= 50 {
			b, valid := ref.Base58Dec(s[len(s)-50:])
			if valid && len(b) >= 4 {
				data = b[:len(b)-4]
				sum := ref.RIPEMD160(data)
				ok = bytes.Equal(sum[:4], b[len(b)-4:])
			}
		}
		stats.Case("altered legacy text", true, strconv.Quote(s))
		p, err = parse(t, "PUB", s)
		if err == nil && (!ok || p.typ != chain.K1 || !bytes.Equal(p.data, data)) {
			t.Fatalf("altered legacy key %q (from %q) is accepted as %v", s, want, p)
		}
		if err != nil && ok && len(data) == 33 {
			t.Fatalf("legacy key %q is rejected: %v", s, err)
		}
	})
	check(t, "altered", 25000, func(t *rapid.T) {
		prefix, kt, data := gen(t)
		good := ref.KeyText(prefix, keyName(kt), data)
		s := good
		how := "altered"
		switch rapid.IntRange(0, 5).Draw(t, "how") {
		case 0: // pretend it is of another type
			how = "retyped"
			p := strings.SplitN(good, "_", 3)
			s = pick(t, "p", "PUB", "SIG", "PVT", "", "pub", "PUB ", "SIG_", "sig") + "_" + pick(t, "t", "K1", "R1", "WA", "XX", "", "k1", "K2", "K", "K11", "P1", "WA ") + "_" + p[2]
		case 1: // retyped with a checksum for another type, or none, or wrong data with a right checksum
			how = "other checksum"
			salt := pick(t, "salt", "K1", "R1", "WA", "", "P1", "XX", "k1")
			d := data
			if rapid.Bool().Draw(t, "resize") {
				d = gFill(t, "data", pick(t, "size", 0, 1, 4, 20, 32, 33, 34, 35, 64, 65, 66, 67, 68, 90))
			}
			sum := ref.RIPEMD160(ref.Cat(d, []byte(salt)))
			s = pick(t, "p", "PUB", "SIG") + "_" + pick(t, "t", "K1", "R1", "WA") + "_" + ref.Base58(ref.Cat(d, sum[:4]))
		case 2: // delimiters
			how = "delimiters"
			i := strings.LastIndex(good, "_")
			if rapid.Bool().Draw(t, "first") {
				i = 3
			}
			s = good[:i] + pick(t, "d", "", "-", " ", "__", "1", "\x00", "é", ".") + good[i+1:]
		default:
			for s == good {
				s = gEdit(t, good)
				if chance(t, "giveup", 10) {
					return
				}
			}
		}
		as := prefix
		if chance(t, "cross", 3) {
			as = pick(t, "as", "PUB", "SIG")
		}
		wt, wd, ok := keyOfText(as, s)
		if ok && !rightShape(as, keyName(wt), wd) {
			ok = false
		}
		if as == "PUB" && !strings.HasPrefix(s, "PUB_") && len(s) >= 50 {
			// would be a legacy key if the checksum happens to fit, as in a key of 33 bytes without salt
			b, valid := ref.Base58Dec(s[len(s)-50:])
			if valid && len(b) >= 4 {
				sum := ref.RIPEMD160(b[:len(b)-4])
				if bytes.Equal(sum[:4], b[len(b)-4:]) {
					return
				}
			}
		}
		stats.Case(how, !ok, strconv.Quote(s)+" as "+as)
		k, err := parse(t, as, s)
		if err == nil && !ok {
			t.Fatalf("%s text %q (from %q) is accepted as a %s of type %d with data %x", how, s, good, as, k.typ, k.data)
		}
		if ok && (err != nil || k.typ != wt || !bytes.Equal(k.data, wd)) {
			t.Fatalf("%q parses as %s %v, %v; want type %d data %x", s, as, k, err, wt, wd)
		}
	})
}

func TestC19(t *testing.T) {
	largeC19(t)
	hugeC19(t)
	gRaw := func(t *rapid.T) []byte {
		b := gBytes(t, "b", 300)
		if chance(t, "long", 60) {
			b = gFill(t, "long", rapid.IntRange(300, 2000).Draw(t, "n"))
		}
		return ref.Cat(make([]byte, pick(t, "zeros", 0, 0, 0, 1, 2, 3, 10, 33)), b)
	}
	check(t, "base58", 15000, func(t *rapid.T) {
		b := gRaw(t)
		want := ref.Base58(b)
		stats.Case("encode/decode", len(b) > 0, want)
		if s := base58.Encode(b); s != want {
			t.Fatalf("Encode(%s) = %q, want %q", hexs(b), s, want)
		}
		if d := base58.Decode(want); !bytes.Equal(d, b) {
			t.Fatalf("Decode(%q) = %s, want %s", want, hexs(d), hexs(b))
		}
		if len(b) > 0 && len(b) < 400 {
			// the same memory with other contents
			was := hexs(b)
			b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			if s, want := base58.Encode(b), ref.Base58(b); s != want {
				t.Fatalf("Encode(%s), in place of %s, = %q, want %q", hexs(b), was, s, want)
			}
		}
	})
	check(t, "digits", 15000, func(t *rapid.T) {
		// every text over the alphabet is the encoding of exactly one byte string
		n := gLen(t, "n", 200)
		sb := make([]byte, n)
		for i := range sb {
			sb[i] = b58chars[rapid.IntRange(0, 57).Draw(t, "d")]
		}
		s := strings.Repeat("1", pick(t, "ones", 0, 0, 1, 5)) + string(sb)
		want, _ := ref.Base58Dec(s)
		stats.Case("text over the alphabet", s != "", s)
		d := base58.Decode(s)
		if !bytes.Equal(d, want) {
			t.Fatalf("Decode(%q) = %s, want %s", s, hexs(d), hexs(want))
		}
		if e := base58.Encode(d); e != s {
			t.Fatalf("Encode(Decode(%q)) = %q", s, e)
		}
	})
	once(t, "alphabet", func(t *testing.T) {
		for c := 0; c < 256; c++ {
			for _, s := range []string{string([]byte{byte(c)}), "1" + string([]byte{byte(c)}), "zzzzzzzzzzzzz" + string([]byte{byte(c)}) + "11"} {
				stats.Case("single characters", true, strconv.Quote(s))
				want, ok := ref.Base58Dec(s)
				var got []byte
				if msg, bad := noPanic(func() { got = base58.Decode(s) }); bad {
					t.Fatalf("Decode(%q) panics: %s", s, msg)
				}
				if !ok && len(got) != 0 || ok && !bytes.Equal(got, want) {
					t.Fatalf("Decode(%q) = %x, want %x", s, got, want)
				}
			}
		}
	})
	check(t, "outside", 15000, func(t *rapid.T) {
		s := gEdit(t, ref.Base58(gRaw(t)))
		if chance(t, "any", 4) {
			s = gString(t, "s", 200)
		}
		want, ok := ref.Base58Dec(s)
		stats.Case("arbitrary text", !ok, strconv.Quote(s))
		var got []byte
		if msg, bad := noPanic(func() { got = base58.Decode(s) }); bad {
			t.Fatalf("Decode(%q) panics: %s", s, msg)
		}
		if !ok && len(got) != 0 || ok && !bytes.Equal(got, want) {
			t.Fatalf("Decode(%q) = %x, want %x", s, got, want)
		}
	})
	sum := func(kind int, d []byte, suffix string) []byte {
		if kind == 0 {
			a := sha256.Sum256(d)
			b := sha256.Sum256(a[:])
			return b[:4]
		}
		r := ref.RIPEMD160(ref.Cat(d, []byte(suffix)))
		return r[:4]
	}
	gSuffix := func(t *rapid.T) string {
		return pick(t, "suffix", "", "K1", "R1", "WA", "X", gString(t, "anysuffix", 100))
	}
	encode := func(kind int, d []byte, suffix string) string {
		if kind == 0 {
			return base58.CheckEncode(d)
		}
		return base58.CheckEncodeEosio(d, suffix)
	}
	decode := func(kind int, s, suffix string) ([]byte, error) {
		if kind == 0 {
			return base58.CheckDecode(s)
		}
		return base58.CheckDecodeEosio(s, suffix)
	}
	check(t, "check", 15000, func(t *rapid.T) {
		kind, d, suffix := rapid.IntRange(0, 1).Draw(t, "kind"), gRaw(t), gSuffix(t)
		want := ref.Base58(ref.Cat(d, sum(kind, d, suffix)))
		stats.Case("check-encoded", true, fmt.Sprint(kind, strconv.Quote(suffix), want))
		if s := encode(kind, d, suffix); s != want {
			t.Fatalf("check-encoding %s (form %d, suffix %q) gives %q, want %q", hexs(d), kind, suffix, s, want)
		}
		back, err := decode(kind, want, suffix)
		if err != nil || !bytes.Equal(back, d) {
			t.Fatalf("check-decoding %q (form %d, suffix %q) gives %s, %v", want, kind, suffix, hexs(back), err)
		}
	})
	check(t, "corrupt", 25000, func(t *rapid.T) {
		kind, d, suffix := rapid.IntRange(0, 1).Draw(t, "kind"), gRaw(t), gSuffix(t)
		raw := ref.Cat(d, sum(kind, d, suffix))
		s, suffix2 := "", suffix
		switch rapid.IntRange(0, 5).Draw(t, "how") {
		case 0: // one bit of the payload or checksum
			i := rapid.IntRange(0, len(raw)*8-1).Draw(t, "bit")
			raw[i/8] ^= 1 << (i % 8)
			s = ref.Base58(raw)
		case 1: // one bit of the checksum
			i := rapid.IntRange(0, 31).Draw(t, "bit")
			raw[len(raw)-4+i/8] ^= 1 << (i % 8)
			s = ref.Base58(raw)
		case 2:
			s, suffix2 = ref.Base58(raw), gSuffix(t)
		case 3: // too short
			s = ref.Base58(raw[:rapid.IntRange(0, 3).Draw(t, "short")])
		case 4: // the checksum of the other form
			s = ref.Base58(ref.Cat(d, sum(1-kind, d, suffix)))
		default:
			s = gEdit(t, ref.Base58(raw))
		}
		b, ok := ref.Base58Dec(s)
		var want []byte
		if ok = ok && len(b) >= 4; ok {
			want = b[:len(b)-4]
			ok = bytes.Equal(sum(kind, want, suffix2), b[len(b)-4:])
		}
		stats.Case("corrupted", !ok, fmt.Sprint(kind, strconv.Quote(suffix2), strconv.Quote(s)))
		var got []byte
		var err error
		if msg, bad := noPanic(func() { got, err = decode(kind, s, suffix2) }); bad {
			t.Fatalf("check-decoding %q panics: %s", s, msg)
		}
		if !ok && err == nil || ok && (err != nil || !bytes.Equal(got, want)) {
			t.Fatalf("check-decoding %q (form %d, suffix %q) gives %s, %v; valid: %v, payload %s", s, kind, suffix2, hexs(got), err, ok, hexs(want))
		}
		if err != nil && len(got) != 0 {
			t.Fatalf("check-decoding %q gives both %s and error %v", s, hexs(got), err)
		}
	})
}

// gMsg is a message with a length near the block boundaries of the hash.
func gMsg(t *rapid.T) []byte {
	switch rapid.IntRange(0, 4).Draw(t, "msglen") {
	case 0:
		return gFill(t, "msg", rapid.IntRange(0, 3).Draw(t, "blocks")*64+rapid.IntRange(50, 70).Draw(t, "n"))
	case 1:
		return gFill(t, "msg", rapid.IntRange(0, 300).Draw(t, "n"))
	case 2:
		return gBytes(t, "msg", 5000)
	default:
		return gFill(t, "msg", rapid.IntRange(0, 130).Draw(t, "n"))
	}
}

func TestC20(t *testing.T) {
	largeC20(t)
	check(t, "history", 8000, func(t *rapid.T) {
		// a history of writes, sums and resets on several hashes, against the
		// plain hash of everything written so far
		nh := rapid.IntRange(1, 2).Draw(t, "hashes")
		var hs []hash.Hash
		model := make([][]byte, nh)
		for i := 0; i < nh; i++ {
			h := ripemd160.New()
			if rapid.Bool().Draw(t, "viacrypto") {
				h = crypto.RIPEMD160.New()
			}
			hs = append(hs, h)
		}
		var log []string
		total := 0
		sums, writes := 0, 0
		for i, n := 0, rapid.IntRange(1, 14).Draw(t, "ops"); i < n; i++ {
			k := rapid.IntRange(0, nh-1).Draw(t, "h")
			h := hs[k]
			switch rapid.IntRange(0, 7).Draw(t, "op") {
			case 0, 1, 2, 3:
				m := gMsg(t)
				if rem := 64 - len(model[k])%64; rapid.Bool().Draw(t, "edge") { // end at or next to a boundary
					n := rem + pick(t, "off", -8, -9, -1, 0, 1, 56, 64, 63)
					if n < 0 {
						n += 64
					}
					m = gFill(t, "edge", n)
				}
				total += len(m)
				log = append(log, fmt.Sprintf("#%d write %d bytes", k, len(m)))
				keep := append([]byte{}, m...)
				c, err := h.Write(m)
				if c != len(m) || err != nil {
					t.Fatalf("%v: Write returned %d, %v", log, c, err)
				}
				if !bytes.Equal(m, keep) {
					t.Fatalf("%v: Write changed its input", log)
				}
				model[k] = append(model[k], keep...)
				for j := range m { // the hash must have its own copy
					m[j] ^= 0xa5
				}
				writes++
			case 4, 5, 6:
				pre := gFill(t, "pre", rapid.IntRange(0, 5).Draw(t, "prelen"))
				buf := make([]byte, len(pre), len(pre)+pick(t, "spare", 0, 1, 19, 20, 21, 40))
				copy(buf, pre)
				log = append(log, fmt.Sprintf("#%d sum onto %d/%d", k, len(buf), cap(buf)))
				got := h.Sum(buf)
				want := ref.RIPEMD160(model[k])
				if !bytes.Equal(got, ref.Cat(pre, want[:])) {
					t.Fatalf("%v: Sum after %d bytes %s gives %x onto %x, want %x", log, len(model[k]), hexs(model[k]), got, pre, want)
				}
				sums++
			case 7:
				log = append(log, fmt.Sprintf("#%d reset", k))
				h.Reset()
				model[k] = nil
			}
			if h.Size() != 20 || h.BlockSize() != 64 {
				t.Fatalf("size %d, block size %d", h.Size(), h.BlockSize())
			}
		}
		for k, h := range hs {
			want := ref.RIPEMD160(model[k])
			if got := h.Sum(nil); !bytes.Equal(got, want[:]) {
				t.Fatalf("%v: the sum of #%d over %s is %x, want %x", log, k, hexs(model[k]), got, want)
			}
		}
		stats.Case("history", sums > 0 && writes > 1, fmt.Sprint(log, total))
	})
	check(t, "lengths", 300, func(t *rapid.T) {
		base := rapid.IntRange(0, 4096).Draw(t, "base")
		seed := rapid.Uint64().Draw(t, "seed")
		for n := base; n < base+64; n++ {
			m := make([]byte, n)
			expand(m, seed)
			stats.Case("length", n > 0, fmt.Sprint(n, seed))
			want := ref.RIPEMD160(m)
			if got := chain.Checksum160Digest(m); got != want {
				t.Fatalf("RIPEMD-160 of %d bytes from seed %d is %x, want %x", n, seed, got, want)
			}
		}
	})
	check(t, "digests", 15000, func(t *rapid.T) {
		m := gMsg(t)
		stats.Case("digest helpers", len(m) > 0, hexs(m))
		keep := append([]byte{}, m...)
		c160, c256, c512 := chain.Checksum160Digest(m), chain.Checksum256Digest(m), chain.Checksum512Digest(m)
		w160, w256, w512 := ref.RIPEMD160(m), ref.SHA256(m), ref.SHA512(m)
		if c160 != w160 || c256 != w256 || c512 != w512 {
			t.Fatalf("digests of %s are %x %x %x, want %x %x %x", hexs(m), c160, c256, c512, w160, w256, w512)
		}
		if !bytes.Equal(m, keep) {
			t.Fatalf("hashing changed the message %s", hexs(keep))
		}
		if c160.String() != ref.Hex(w160[:]) || c256.String() != ref.Hex(w256[:]) || c512.String() != ref.Hex(w512[:]) {
			t.Fatalf("digests of %s render as %s %s %s", hexs(m), c160, c256, c512)
		}
		if len(m) > 0 {
			// the same memory with other contents
			m[rapid.IntRange(0, len(m)-1).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			if c160, c256, c512 := chain.Checksum160Digest(m), chain.Checksum256Digest(m), chain.Checksum512Digest(m); c160 != ref.RIPEMD160(m) || c256 != ref.SHA256(m) || c512 != ref.SHA512(m) {
				t.Fatalf("digests of %s, in place of %s, are %x %x %x", hexs(m), hexs(keep), c160, c256, c512)
			}
		}
	})
	check(t, "large", 6, func(t *rapid.T) {
		n := rapid.IntRange(1<<16, 1<<20).Draw(t, "n")
		m := make([]byte, n)
		expand(m, rapid.Uint64().Draw(t, "seed"))
		h := ripemd160.New()
		for left := m; len(left) > 0; {
			k := rapid.IntRange(1, 200000).Draw(t, "chunk")
			if k > len(left) {
				k = len(left)
			}
			_, _ = h.Write(left[:k])
			left = left[k:]
		}
		stats.Case("large message", true, fmt.Sprint(n))
		want := ref.RIPEMD160(m)
		if got := h.Sum(nil); !bytes.Equal(got, want[:]) {
			t.Fatalf("RIPEMD-160 of %d bytes is %x, want %x", n, got, want)
		}
	})
	huge := func(at int, name string, n int, sum [20]byte) {
		if shard != at || collect != nil {
			return
		}
		t.Run(name, func(t *testing.T) {
			chunk := make([]byte, 1<<16)
			expand(chunk, 12345)
			h := ripemd160.New()
			for i := 0; i < n; i++ {
				_, _ = h.Write(chunk)
				if i%64 == 0 {
					Journal("hashing %d copies of 64 KiB", i)
				}
			}
			stats.Case(name, true, fmt.Sprint(n))
			want := sum
			if thorough {
				want = ref.RIPEMD160Repeat(chunk, n)
			}
			if got := h.Sum(nil); !bytes.Equal(got, want[:]) {
				t.Fatalf("RIPEMD-160 of %d bytes is %x, want %x", n<<16, got, want)
			}
		})
	}
	// what the reference model gives for the huge messages
	huge(0, "message over 2^32 bits", 1<<13+1, [20]byte{0x6, 0xb1, 0xb2, 0x54, 0x8f, 0xf4, 0xd5, 0x4d, 0x69, 0xd0, 0x18, 0xc7, 0x7, 0xbc, 0x2c, 0x4a, 0x7a, 0x90, 0x78, 0x2d})
	huge(1, "message over 2^32 bytes", 1<<16+1, [20]byte{0x3b, 0x99, 0x1, 0x40, 0x27, 0x38, 0x8c, 0x0, 0x7a, 0xb4, 0x90, 0x46, 0x53, 0x86, 0x93, 0x1d, 0x60, 0x5f, 0xeb, 0x94})
}
