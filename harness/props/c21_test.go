package props

import (
	"bytes"
	"encoding"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/greymass/go-eosio/pkg/chain"
	"pgregory.net/rapid"

	"verif/ref"
)

// sameJSON compares two JSON texts by meaning.
func sameJSON(a, b string) bool {
	var x, y interface{}
	d1, d2 := json.NewDecoder(strings.NewReader(a)), json.NewDecoder(strings.NewReader(b))
	d1.UseNumber()
	d2.UseNumber()
	if d1.Decode(&x) != nil || d2.Decode(&y) != nil || d1.More() || d2.More() {
		return false
	}
	return reflect.DeepEqual(x, y)
}

func codeText(v uint64) (string, bool) {
	var b []byte
	for ; v > 0; v >>= 8 {
		b = append(b, byte(v))
	}
	return string(b), reCode.Match(b)
}

// refJSON is the EOSIO JSON of a value, by the reference model; ok is false if
// the value has no faithful JSON.
func refJSON(v interface{}) (s string, ok bool) {
	num := func(x interface{}) (string, bool) { return fmt.Sprint(x), true }
	switch x := v.(type) {
	case nil:
		return "null", true
	case bool, int8, uint8, int16, uint16, int32, uint32, int64, int, uint:
		return num(x)
	case float32:
		f := float64(x)
		return strconv.FormatFloat(f, 'g', -1, 32), !math.IsNaN(f) && !math.IsInf(f, 0)
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64), !math.IsNaN(x) && !math.IsInf(x, 0)
	case string:
		b, _ := json.Marshal(x)
		return string(b), utf8.ValidString(x)
	case chain.Name:
		return q(ref.NameText(uint64(x))), true
	case chain.Symbol:
		c, ok := codeText(uint64(x) >> 8)
		return q(fmt.Sprint(uint64(x)&255) + "," + c), ok && uint64(x)&255 <= 18
	case chain.SymbolCode:
		c, ok := codeText(uint64(x))
		return q(c), ok
	case chain.Asset:
		c, ok := codeText(uint64(x.Symbol) >> 8)
		if d := int(uint64(x.Symbol) & 255); ok && d <= 18 {
			return q(ref.AssetText(x.Value, d, c)), true
		}
		return "", false
	case chain.ExtendedAsset:
		a, ok := refJSON(x.Quantity)
		return `{"quantity":` + a + `,"contract":` + q(ref.NameText(uint64(x.Contract))) + `}`, ok
	case chain.TimePoint:
		s, ok := ref.UTCText(int64(x), 3)
		return q(s), ok
	case chain.TimePointSec:
		return q(secText(uint32(x))), true
	case chain.BlockTimestamp:
		s, ok := ref.UTCText(946684800000000+int64(x)*500000, 3)
		return q(s), ok
	case chain.BlockNum:
		return uintJSON(uint64(x)), true
	case chain.Uint64:
		return uintJSON(uint64(x)), true
	case chain.Checksum160:
		return q(ref.Hex(x[:])), true
	case chain.Checksum256:
		return q(ref.Hex(x[:])), true
	case chain.Checksum512:
		return q(ref.Hex(x[:])), true
	case chain.Float128:
		return q(ref.Hex(x.Data[:])), true
	case chain.Uint128:
		return q(ref.Uint128Big(x.Lo, x.Hi).String()), true
	case chain.Int128:
		return q(ref.Int128Big(x.Lo, x.Hi).String()), true
	case chain.Bytes:
		return q(ref.Hex(x)), true
	case chain.Blob:
		return q(ref.B64(x)), true
	case chain.PublicKey:
		return q(ref.KeyText("PUB", keyName(x.Type), x.Data)), len(x.Data) < 3000
	case chain.Signature:
		return q(ref.KeyText("SIG", keyName(x.Type), x.Data)), len(x.Data) < 3000
	case []interface{}:
		var l []string
		for _, e := range x {
			s, ok := refJSON(e)
			if !ok {
				return "", false
			}
			l = append(l, s)
		}
		return "[" + strings.Join(l, ",") + "]", true
	case map[string]interface{}:
		var keys, l []string
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			s, ok := refJSON(x[k])
			if !ok || !utf8.ValidString(k) {
				return "", false
			}
			kb, _ := json.Marshal(k)
			l = append(l, string(kb)+":"+s)
		}
		return "{" + strings.Join(l, ",") + "}", true
	}
	return "", false
}

var jsonGens []cvGen

func init() {
	jsonGens = append(append(jsonGens, scalarGens...), txGens...)
}

func TestC21(t *testing.T) {
	largeText(t, false)
	check(t, "in place", 3000, func(t *rapid.T) {
		inPlace(t, "JSON of a changed value", gCV(t, jsonGens).V, func(p interface{}) string {
			b, err := json.Marshal(p)
			if err != nil {
				return "error"
			}
			return string(b)
		})
	})
	check(t, "values", 8000, func(t *rapid.T) {
		cv := gCV(t, jsonGens)
		if cv.JSON == "" {
			return
		}
		rt := reflect.TypeOf(cv.V)
		stats.Case(cv.Name, cv.Interest, cv.JSON)
		marshal := func(how string, v interface{}, want string) string {
			var b []byte
			var err error
			if msg, bad := noPanic(func() { b, err = json.Marshal(v) }); bad || err != nil {
				t.Fatalf("%s: JSON of %s %s: %v %s", how, cv.Name, show(cv.V), err, msg)
			}
			if !sameJSON(string(b), want) {
				t.Fatalf("%s: JSON of %s %s is\n%s, want\n%s", how, cv.Name, show(cv.V), clip(string(b), 2000), clip(want, 2000))
			}
			return string(b)
		}
		unmarshal := func(how string, js string, p reflect.Value, want interface{}) {
			var err error
			if msg, bad := noPanic(func() { err = json.Unmarshal([]byte(js), p.Interface()) }); bad || err != nil {
				t.Fatalf("%s: reading %s from %s: %v %s", how, cv.Name, clip(js, 1000), err, msg)
			}
			if !sameI(p.Elem().Interface(), want) {
				t.Fatalf("%s: %s reads as\n%s, want\n%s", how, clip(js, 1000), show(p.Elem().Interface()), show(want))
			}
		}
		js := marshal("direct", cv.V, cv.JSON)
		marshal("pointer", ptrTo(cv.V), cv.JSON)
		unmarshal("direct", js, reflect.New(rt), cv.V)
		unmarshal("direct", cv.JSON, reflect.New(rt), cv.V)
		// indented and spaced JSON means the same
		var ind bytes.Buffer
		if json.Indent(&ind, []byte(cv.JSON), " ", "\t") == nil {
			unmarshal("indented", ind.String(), reflect.New(rt), cv.V)
		}
		// the value as it comes from the wire
		w := reflect.New(rt)
		if _, err := dec(cv.Wire, w.Interface()); err == nil {
			marshal("decoded", w.Elem().Interface(), cv.JSON)
		}
		// inside other things
		switch rapid.IntRange(0, 7).Draw(t, "inside") {
		case 0:
			st := reflect.StructOf([]reflect.StructField{{Name: "A", Type: rt, Tag: `json:"a"`}, {Name: "B", Type: reflect.PtrTo(rt), Tag: `json:"b"`}, {Name: "C", Type: reflect.PtrTo(rt), Tag: `json:"c"`}})
			v := reflect.New(st).Elem()
			v.Field(0).Set(reflect.ValueOf(cv.V))
			v.Field(1).Set(reflect.ValueOf(ptrTo(cv.V)))
			want := `{"a":` + cv.JSON + `,"b":` + cv.JSON + `,"c":null}`
			js := marshal("in a struct", v.Interface(), want)
			unmarshal("in a struct", js, reflect.New(st), v.Interface())
		case 1, 2:
			n := rapid.IntRange(0, 3).Draw(t, "n")
			l := reflect.MakeSlice(reflect.SliceOf(rt), n, n)
			var ws []string
			for i := 0; i < n; i++ {
				l.Index(i).Set(reflect.ValueOf(cv.V))
				ws = append(ws, cv.JSON)
			}
			js := marshal("in a slice", l.Interface(), "["+strings.Join(ws, ",")+"]")
			unmarshal("in a slice", js, reflect.New(l.Type()), l.Interface())
		case 3:
			m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), rt))
			m.SetMapIndex(reflect.ValueOf("k"), reflect.ValueOf(cv.V))
			js := marshal("in a map", m.Interface(), `{"k":`+cv.JSON+`}`)
			unmarshal("in a map", js, reflect.New(m.Type()), m.Interface())
		case 4:
			marshal("in an interface", map[string]interface{}{"x": []interface{}{cv.V, ptrTo(cv.V)}}, `{"x":[`+cv.JSON+`,`+cv.JSON+`]}`)
		case 5:
			a := reflect.New(reflect.ArrayOf(2, rt)).Elem()
			a.Index(0).Set(reflect.ValueOf(cv.V))
			a.Index(1).Set(reflect.ValueOf(cv.V))
			js := marshal("in an array", a.Interface(), "["+cv.JSON+","+cv.JSON+"]")
			unmarshal("in an array", js, reflect.New(a.Type()), a.Interface())
		case 6:
			if cv.JSON[0] != '"' || !rt.Comparable() {
				return
			}
			if _, ok := reflect.New(rt).Interface().(encoding.TextUnmarshaler); !ok {
				return
			}
			m := reflect.MakeMap(reflect.MapOf(rt, rt))
			m.SetMapIndex(reflect.ValueOf(cv.V), reflect.ValueOf(cv.V))
			js := marshal("as a map key", m.Interface(), `{`+cv.JSON+`:`+cv.JSON+`}`)
			unmarshal("as a map key", js, reflect.New(m.Type()), m.Interface())
		case 7:
			// into a variable that already holds another value of the type
			if cv.JSON[0] == '{' {
				return
			}
			var used CV
			for _, g := range jsonGens {
				if g.name == cv.Name {
					used = g.gen(t)
				}
			}
			p := reflect.New(rt)
			p.Elem().Set(reflect.ValueOf(used.V))
			unmarshal("into a used variable", js, p, cv.V)
		}
	})
	check(t, "text methods", 5000, func(t *rapid.T) {
		cv := gCV(t, scalarGens)
		m, ok1 := cv.V.(encoding.TextMarshaler)
		if cv.JSON == "" || !ok1 {
			return
		}
		want := cv.JSON[1 : len(cv.JSON)-1]
		stats.Case("text of "+cv.Name, cv.Interest, want)
		b, err := m.MarshalText()
		if err != nil || string(b) != want {
			t.Fatalf("%s %s: MarshalText gives %q, %v, want %q", cv.Name, show(cv.V), b, err, want)
		}
		p := reflect.New(reflect.TypeOf(cv.V))
		if err := p.Interface().(encoding.TextUnmarshaler).UnmarshalText(b); err != nil || !sameI(p.Elem().Interface(), cv.V) {
			t.Fatalf("%s: %q reads as %s, %v, want %s", cv.Name, b, show(p.Elem().Interface()), err, show(cv.V))
		}
		switch x := cv.V.(type) {
		case chain.Bytes:
			if x.Hex() != want {
				t.Fatalf("Hex gives %q, want %q", x.Hex(), want)
			}
		case chain.Blob:
			if x.Base64() != want {
				t.Fatalf("Base64 gives %q, want %q", x.Base64(), want)
			}
		}
	})
	check(t, "blob padding", 6000, func(t *rapid.T) {
		b := gBytes(t, "blob", 2000)
		std := base64.StdEncoding.EncodeToString(b)
		how := pick(t, "padding", "standard", "none", "surplus")
		s := std
		switch how {
		case "none":
			s = strings.TrimRight(std, "=")
		case "surplus":
			s = std + "="
		}
		stats.Case("blob padding "+how, len(b) > 0, s)
		bl := chain.Blob{9, 9, 9}
		if err := json.Unmarshal([]byte(q(s)), &bl); err != nil || !bytes.Equal(bl, b) {
			t.Fatalf("blob %q (padding %s) reads as %x, %v, want %x", s, how, []byte(bl), err, b)
		}
		bl = nil
		if err := bl.UnmarshalText([]byte(s)); err != nil || !bytes.Equal(bl, b) {
			t.Fatalf("blob %q (padding %s) reads as %x, %v, want %x", s, how, []byte(bl), err, b)
		}
	})
	check(t, "abi", 5000, func(t *rapid.T) {
		c := gACase(t, schemaOpts{}, false)
		want, ok := refJSON(c.out)
		if !ok {
			stats.Case("abi value without JSON", false, c.key())
			return
		}
		stats.Case("abi value", c.interest, c.e.name()+" "+want)
		v, _, err := abiDec(c.s.abi, c.e.name(), c.wire)
		if err != nil {
			t.Fatalf("%s: decoding fails: %v", c, err)
		}
		for _, x := range []interface{}{v, &v, map[string]interface{}{"v": v}} {
			b, err := json.Marshal(x)
			w := want
			if _, wrapped := x.(map[string]interface{}); wrapped && !sameI(x, v) {
				w = `{"v":` + want + `}`
			}
			if err != nil || !sameNumJSON(string(b), w) {
				t.Fatalf("%s\ndecodes to %s\nJSON %s, %v\nwant %s", c, show(v), clip(string(b), 2000), err, clip(w, 2000))
			}
		}
	})
}

// sameNumJSON is sameJSON with floating point numbers compared by value.
func sameNumJSON(a, b string) bool {
	var x, y interface{}
	d1, d2 := json.NewDecoder(strings.NewReader(a)), json.NewDecoder(strings.NewReader(b))
	d1.UseNumber()
	d2.UseNumber()
	if d1.Decode(&x) != nil || d2.Decode(&y) != nil {
		return false
	}
	return reflect.DeepEqual(normNum(x), normNum(y))
}

func normNum(v interface{}) interface{} {
	switch x := v.(type) {
	case json.Number:
		if r, ok := new(big.Rat).SetString(string(x)); ok {
			if r.IsInt() {
				return r.Num().String()
			}
			f, _ := x.Float64()
			return f
		}
	case []interface{}:
		for i := range x {
			x[i] = normNum(x[i])
		}
	case map[string]interface{}:
		for k := range x {
			x[k] = normNum(x[k])
		}
	}
	return v
}

// ---- C22 ----------------------------------------------------------------------

// mustText says what text of a type denotes: must is +1 if it has to be
// accepted as want, -1 if it has to be rejected, 0 if it may be accepted as want.
func mustText(name, s string) (must int, want interface{}) {
	fixed := func(n int) []byte {
		b, err := hex.DecodeString(s)
		if err != nil || len(b) != n {
			return nil
		}
		return b
	}
	lower := 0
	if s == strings.ToLower(s) {
		lower = 1
	}
	switch name {
	case "Checksum160":
		if b := fixed(20); b != nil {
			var c chain.Checksum160
			copy(c[:], b)
			return lower, c
		}
		return -1, nil
	case "Checksum256":
		if b := fixed(32); b != nil {
			var c chain.Checksum256
			copy(c[:], b)
			return lower, c
		}
		return -1, nil
	case "Checksum512":
		if b := fixed(64); b != nil {
			var c chain.Checksum512
			copy(c[:], b)
			return lower, c
		}
		return -1, nil
	case "Float128":
		if b := fixed(16); b != nil {
			var c chain.Float128
			copy(c.Data[:], b)
			return lower, c
		}
		return -1, nil
	case "Bytes":
		b, err := hex.DecodeString(s)
		if err != nil {
			return -1, nil
		}
		return lower, chain.Bytes(b)
	case "Blob":
		x := strings.NewReplacer("\r", "", "\n", "").Replace(s)
		raw := strings.TrimRight(x, "=")
		b, err := base64.RawStdEncoding.DecodeString(raw)
		if err != nil {
			return -1, nil
		}
		std := base64.StdEncoding.EncodeToString(b)
		if s == std || s == strings.TrimRight(std, "=") || s == std+"=" {
			return 1, chain.Blob(b)
		}
		return 0, chain.Blob(b)
	case "PublicKey":
		if kt, d, ok := keyOfText("PUB", s); ok && rightShape("PUB", keyName(kt), d) {
			return 1, chain.PublicKey{Type: kt, Data: d}
		}
		if strings.HasPrefix(s, "PUB_") || len(s) < 50 {
			return -1, nil
		}
		b, ok := ref.Base58Dec(s[len(s)-50:])
		if !ok || len(b) != 37 {
			return -1, nil
		}
		if sum := ref.RIPEMD160(b[:33]); !bytes.Equal(sum[:4], b[33:]) {
			return -1, nil
		}
		return 1, chain.PublicKey{Type: chain.K1, Data: b[:33]}
	case "Signature":
		if kt, d, ok := keyOfText("SIG", s); ok && rightShape("SIG", keyName(kt), d) {
			return 1, chain.Signature{Type: kt, Data: d}
		}
		return -1, nil
	case "Name":
		if v, ok := ref.NameValue(s); ok {
			return 1, chain.Name(v)
		}
	}
	return 0, nil
}

func gBadText(t *rapid.T, valid string) string {
	switch rapid.IntRange(0, 14).Draw(t, "badtext") {
	case 14: // a character many times, so that lengths agree in their low bits
		if len(valid) == 0 {
			return valid
		}
		i := rapid.IntRange(0, len(valid)-1).Draw(t, "at")
		if rapid.Bool().Draw(t, "last") {
			i = len(valid) - 1
		}
		n := pick(t, "many", 64, 128, 256, 256, 256, 512, 512)
		if chance(t, "very many", 200) {
			n = 65536
		}
		return valid[:i] + strings.Repeat(valid[i:i+1], n) + valid[i:]
	case 10:
		return dText(t, "d")
	case 11: // something before or after it, more than once perhaps
		a := strings.Repeat(pick(t, "affix", "Z", "z", " ", "\t", "\n", "\"", "'", "=", "0", "1", "+", "-", ".", ",", "_", "0x", "0X", "EOS", "PUB_", "\ufeff", "\u00a0"), pick(t, "times", 1, 2, 3, 1, 2, 3, 128, 256))
		switch rapid.IntRange(0, 2).Draw(t, "where") {
		case 0:
			return a + valid
		case 1:
			return valid + a
		}
		return a + valid + a
	case 12: // one or all letters in the other case
		i := rapid.IntRange(-1, len(valid)-1).Draw(t, "flip")
		b := []byte(valid)
		for j, c := range b {
			if (j == i || i < 0) && (c|0x20) >= 'a' && (c|0x20) <= 'z' {
				b[j] = c ^ 0x20
			}
		}
		return string(b)
	case 13: // a separator doubled, left out or replaced
		at := []int{}
		for j := range valid {
			if strings.IndexByte(" ._-:,TZ=", valid[j]) >= 0 {
				at = append(at, j)
			}
		}
		if len(at) == 0 {
			return gEdit(t, valid)
		}
		i := at[rapid.IntRange(0, len(at)-1).Draw(t, "sep")]
		return valid[:i] + pick(t, "new", "", valid[i:i+1]+valid[i:i+1], " ", "\t", ".", "_", "-", "+", ":", ",", "t", "/") + valid[i+1:]
	case 0:
		return gString(t, "s", 300)
	case 1:
		return pick(t, "odd", "", "0", "00", "0x00", "zz", "=", "==", "====", "A", "A=", "AA", "AA=A", "AAA=", "AAAA=", "A===", "-", "_", "PUB_", "PUB_K1", "PUB_K1_", "PUB_K1_1", "PUB_K1_1111", "SIG_", "SIG_K1_", "SIG_K1_11111", "EOS", "PUB_WA_", "PUB_XX_1111", "ÿ", "\x00", "null", "[]", " ", "\n")
	case 2: // hex of another length
		n := pick(t, "n", 0, 1, 2, 15, 16, 17, 19, 20, 21, 31, 32, 33, 40, 63, 64, 65, 128)
		if chance(t, "more", 3) {
			n += pick(t, "by", 128, 256, 256, 512)
			if chance(t, "very many", 60) {
				n += 65536
			}
		}
		return ref.Hex(gFill(t, "hex", n))
	case 3: // odd number of digits
		h := ref.Hex(gFill(t, "hex", pick(t, "n", 1, 2, 16, 20, 32, 64)))
		if rapid.Bool().Draw(t, "more") {
			return h + "0"
		}
		return h[1:]
	case 4:
		return strings.ToUpper(valid)
	case 5:
		return valid + valid
	case 6:
		i := rapid.IntRange(0, len(valid)).Draw(t, "at")
		return valid[:i] + pick(t, "ins", " ", "\n", "=", "_", "0", "g", "é", "\x00", "\r\n", "-") + valid[i:]
	default:
		return gEdit(t, valid)
	}
}

var textTypes []cvGen

func init() {
	for _, g := range scalarGens {
		switch g.name {
		case "ExtendedAsset", "BlockNum", "Uint64":
		default:
			textTypes = append(textTypes, g)
		}
	}
}

func TestC22(t *testing.T) {
	largeText(t, true)
	check(t, "text", 40000, func(t *rapid.T) {
		cv := gSmallCV(t, textTypes, 400)
		if cv.JSON == "" {
			return
		}
		s := gBadText(t, cv.JSON[1:len(cv.JSON)-1])
		must, want := mustText(cv.Name, s)
		stats.Case(cv.Name, must < 1, strconv.Quote(s))
		rt := reflect.TypeOf(cv.V)
		fresh, used, viaJSON := reflect.New(rt), reflect.New(rt), reflect.New(rt)
		used.Elem().Set(reflect.ValueOf(cv.V))
		var e1, e2, e3 error
		js, _ := json.Marshal(s)
		if msg, bad := noPanic(func() {
			e1 = fresh.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(s))
			e2 = used.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(s))
			e3 = json.Unmarshal(js, viaJSON.Interface())
		}); bad {
			t.Fatalf("%s: reading %q panics: %s", cv.Name, s, msg)
		}
		if (e1 == nil) != (e2 == nil) {
			t.Fatalf("%s: reading %q gives %v into a fresh variable and %v into a used one", cv.Name, s, e1, e2)
		}
		if e1 == nil && !sameI(fresh.Elem().Interface(), used.Elem().Interface()) {
			t.Fatalf("%s: %q reads as %s into a fresh variable and %s into a used one", cv.Name, s, show(fresh.Elem().Interface()), show(used.Elem().Interface()))
		}
		if utf8.ValidString(s) {
			if (e1 == nil) != (e3 == nil) || e1 == nil && !sameI(fresh.Elem().Interface(), viaJSON.Elem().Interface()) {
				t.Fatalf("%s: %q reads as %s, %v directly and as %s, %v through JSON", cv.Name, s, show(fresh.Elem().Interface()), e1, show(viaJSON.Elem().Interface()), e3)
			}
		}
		if e1 == nil && must < 0 {
			t.Fatalf("%s: bad text %q is accepted as %s", cv.Name, s, show(fresh.Elem().Interface()))
		}
		if e1 == nil && want != nil && !sameI(fresh.Elem().Interface(), want) {
			t.Fatalf("%s: %q reads as %s, it means %s", cv.Name, s, show(fresh.Elem().Interface()), show(want))
		}
		if e1 != nil && must > 0 {
			t.Fatalf("%s: good text %q is rejected: %v", cv.Name, s, e1)
		}
	})
	check(t, "json kinds", 8000, func(t *rapid.T) {
		cv := gSmallCV(t, jsonGens, 400)
		js := pick(t, "json", "5", "-1", "1.5", "true", "false", "[]", "[1,2]", "{}", `{"Data":"00"}`, `{"Lo":1,"Hi":2}`, `{"Value":1}`, `{"Type":0,"Data":"AAAA"}`, `""`, `"x"`, `["x"]`, `[{}]`, `{"actor":5}`, `{"data":5}`, `{"data":"0"}`, `{"authorization":{}}`, `{"actions":[5]}`, `{"actions":[{"data":"0x"}]}`, `{"quantity":5}`, `{"quantity":"1.0 eos"}`, `{"expiration":"x"}`, `{"delay_sec":-1}`, `{"ref_block_num":65536}`, `{`, `"`, `nul`, `[1`, ``)
		stats.Case("JSON kinds for "+cv.Name, true, js)
		p := reflect.New(reflect.TypeOf(cv.V))
		var err error
		if msg, bad := noPanic(func() { err = json.Unmarshal([]byte(js), p.Interface()) }); bad {
			t.Fatalf("%s: reading %s panics: %s", cv.Name, js, msg)
		}
		// a text type is never read from anything else than a string
		if _, ok := p.Interface().(encoding.TextUnmarshaler); ok && err == nil && !strings.HasPrefix(js, `"`) {
			t.Fatalf("%s: JSON %s is accepted as %s", cv.Name, js, show(p.Elem().Interface()))
		}
		if cv.JSON[:minI(1, len(cv.JSON))] == "{" && err == nil && strings.HasPrefix(js, "[") {
			t.Fatalf("%s: JSON %s is accepted as %s", cv.Name, js, show(p.Elem().Interface()))
		}
		if msg, bad := noPanic(func() { render(p.Elem().Interface()) }); bad {
			t.Fatalf("%s: %s read from %s can't be rendered: %s", cv.Name, show(p.Elem().Interface()), js, msg)
		}
	})
	check(t, "raw json", 4000, func(t *rapid.T) {
		// the JSON methods called directly, with anything
		var raw []byte
		if rapid.Bool().Draw(t, "near") {
			raw = []byte(gBadText(t, pick(t, "base", `"5"`, `5`, `""`, `"`, `"18446744073709551616"`, `null`, ``)))
		} else {
			raw = gBytes(t, "raw", 12)
		}
		stats.Case("direct UnmarshalJSON", true, strconv.Quote(string(raw)))
		for _, p := range []json.Unmarshaler{new(chain.Uint64), new(chain.BlockNum)} {
			in := append([]byte{}, raw...)
			if msg, bad := noPanic(func() { _ = p.UnmarshalJSON(in) }); bad {
				t.Fatalf("UnmarshalJSON of %T with %q panics: %s", p, raw, msg)
			}
			if string(in) != string(raw) {
				t.Fatalf("UnmarshalJSON of %T changes its input %q to %q", p, raw, in)
			}
		}
	})
	check(t, "nested", 8000, func(t *rapid.T) {
		// one bad leaf inside a transaction, action or asset is an error
		data, ext := ref.Hex(gFill(t, "data", 6)), ref.Hex(gFill(t, "ext", 4))
		name := func(l string) string { return ref.NameText(uint64(gName(t, l))) }
		exp, qty := secText(gU32(t, "exp")), "1.0000 EOS"
		which := pick(t, "leaf", "data", "ext", "exp", "none")
		bad := func(s string) string {
			for i := 0; i < 20; i++ {
				if b := gBadText(t, s); b != s && utf8.ValidString(b) {
					return b
				}
			}
			return "zz"
		}
		must := 1
		switch which {
		case "data":
			data = bad(data)
			must, _ = mustText("Bytes", data)
		case "ext":
			ext = bad(ext)
			must, _ = mustText("Bytes", ext)
		case "exp":
			exp = bad(exp)
			must = 0
			if _, _, ok := timeOf(exp); !ok {
				must = -1
			}
		}
		esc := func(s string) string { b, _ := json.Marshal(s); return string(b) }
		js := `{"expiration":` + esc(exp) + `,"ref_block_num":1,"ref_block_prefix":2,"max_net_usage_words":0,"max_cpu_usage_ms":0,"delay_sec":0,"context_free_actions":[],` +
			`"actions":[{"account":` + esc(name("a")) + `,"name":` + esc(name("n")) + `,"authorization":[{"actor":` + esc(name("x")) + `,"permission":` + esc(name("p")) + `}],"data":` + esc(data) + `}],` +
			`"transaction_extensions":[{"type":1,"data":` + esc(ext) + `}]}`
		_ = qty
		stats.Case("bad leaf "+which, must < 1, js)
		var tx chain.Transaction
		var err error
		if msg, p := noPanic(func() { err = json.Unmarshal([]byte(js), &tx) }); p {
			t.Fatalf("reading %s panics: %s", js, msg)
		}
		if must < 0 && err == nil || must > 0 && err != nil {
			t.Fatalf("reading %s (bad leaf: %s) gives %v", js, which, err)
		}
	})
}
