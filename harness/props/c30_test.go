package props

import (
	"encoding"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"testing"
	"unicode/utf8"

	"github.com/greymass/go-eosio/pkg/chain"
	"pgregory.net/rapid"
)

// ---- C30: every way in and out of text agrees --------------------------------

// textMakers are the constructors that take text.
var textMakers = map[string]map[string]func(s string) (interface{}, error){
	"Name": {
		"NewName": func(s string) (interface{}, error) { return chain.NewName(s), nil },
		"N":       func(s string) (interface{}, error) { return chain.N(s), nil },
	},
	"Asset": {
		"NewAssetFromString": func(s string) (interface{}, error) { return deref(chain.NewAssetFromString(s)) },
		"A": func(s string) (v interface{}, err error) {
			if msg, bad := noPanic(func() { v = *chain.A(s) }); bad {
				return nil, fmt.Errorf("panic: %s", msg)
			}
			return v, nil
		},
	},
	"Symbol":         {"NewSymbolFromString": func(s string) (interface{}, error) { return chain.NewSymbolFromString(s) }},
	"TimePoint":      {"NewTimePointFromString": func(s string) (interface{}, error) { return chain.NewTimePointFromString(s) }},
	"TimePointSec":   {"NewTimePointSecFromString": func(s string) (interface{}, error) { return chain.NewTimePointSecFromString(s) }},
	"BlockTimestamp": {"NewBlockTimestampFromString": func(s string) (interface{}, error) { return chain.NewBlockTimestampFromString(s) }},
	"Uint128":        {"NewUint128FromString": func(s string) (interface{}, error) { return chain.NewUint128FromString(s) }},
	"Int128":         {"NewInt128FromString": func(s string) (interface{}, error) { return chain.NewInt128FromString(s) }},
	"PublicKey":      {"NewPublicKeyFromString": func(s string) (interface{}, error) { return deref(chain.NewPublicKeyFromString(s)) }},
	"Signature":      {"NewSignatureString": func(s string) (interface{}, error) { return deref(chain.NewSignatureString(s)) }},
}

// deref turns the pointer of a constructor into its value.
func deref(p interface{}, err error) (interface{}, error) {
	if err != nil {
		return nil, err
	}
	return reflect.ValueOf(p).Elem().Interface(), nil
}

// jsonKey reads or writes the name of the only member of a JSON object.
func readJSONKey(rt reflect.Type, js []byte) (interface{}, error) {
	m := reflect.New(reflect.MapOf(rt, reflect.TypeOf(uint8(0))))
	if err := json.Unmarshal([]byte("{"+string(js)+":1}"), m.Interface()); err != nil {
		return nil, err
	}
	if m.Elem().Len() != 1 {
		return nil, fmt.Errorf("%d members", m.Elem().Len())
	}
	return m.Elem().MapKeys()[0].Interface(), nil
}

func TestC30(t *testing.T) {
	check(t, "parse", 30000, func(t *rapid.T) {
		cv := gSmallCV(t, textTypes, 400)
		rt := reflect.TypeOf(cv.V)
		s := ""
		if len(cv.JSON) > 1 {
			s = cv.JSON[1 : len(cv.JSON)-1]
		}
		if rapid.IntRange(0, 5).Draw(t, "altered") > 0 {
			s = gBadText(t, s)
		}
		ways := map[string]func() (interface{}, error){}
		for name, f := range textMakers[cv.Name] {
			ways[name] = func() (interface{}, error) { return f(s) }
		}
		ways["UnmarshalText"] = func() (interface{}, error) {
			p := reflect.New(rt)
			err := p.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(s))
			return p.Elem().Interface(), err
		}
		js, _ := json.Marshal(s)
		if utf8.ValidString(s) {
			ways["JSON"] = func() (interface{}, error) {
				p := reflect.New(rt)
				err := json.Unmarshal(js, p.Interface())
				return p.Elem().Interface(), err
			}
			ways["JSON list"] = func() (interface{}, error) {
				p := reflect.New(reflect.SliceOf(reflect.PtrTo(rt)))
				if err := json.Unmarshal([]byte("[ "+string(js)+" ]"), p.Interface()); err != nil {
					return nil, err
				}
				return p.Elem().Index(0).Elem().Interface(), nil
			}
			if rt.Comparable() {
				ways["JSON object key"] = func() (interface{}, error) { return readJSONKey(rt, js) }
			}
		}
		want, werr := ways["UnmarshalText"]()
		stats.Case("parse "+cv.Name, werr == nil && s != "" || werr != nil && len(s) > 2, strconv.Quote(s))
		if werr == nil {
			stats.Count("parse " + cv.Name + ": accepted")
		}
		for name, f := range ways {
			got, err := f()
			if (err == nil) != (werr == nil) {
				t.Fatalf("%s: %q gives %v through %s and %v through UnmarshalText", cv.Name, s, err, name, werr)
			}
			if err == nil && !sameI(got, want) {
				t.Fatalf("%s: %q is %s through %s and %s through UnmarshalText", cv.Name, s, show(got), name, show(want))
			}
		}
	})
	check(t, "render", 15000, func(t *rapid.T) {
		cv := gSmallCV(t, textTypes, 400)
		// not only values that text can hold in full
		v := reflect.New(reflect.TypeOf(cv.V))
		v.Elem().Set(reflect.ValueOf(cv.V))
		switch x := v.Interface().(type) {
		case *chain.TimePoint:
			*x += chain.TimePoint(rapid.Int64Range(-2000, 2000).Draw(t, "micros"))
		case *chain.Symbol:
			*x = chain.Symbol(gSymBits(t, uint64(*x)))
		case *chain.SymbolCode:
			*x = chain.SymbolCode(gSymBits(t, uint64(*x)))
		case *chain.Asset:
			x.Symbol = chain.Symbol(gSymBits(t, uint64(x.Symbol)))
		}
		val := v.Elem().Interface()
		text, err := val.(encoding.TextMarshaler).MarshalText()
		if err != nil {
			t.Fatalf("%s %s: %v", cv.Name, show(val), err)
		}
		stats.Case("render "+cv.Name, cv.Interest, string(text))
		agree := func(how, got string, err error) {
			if err != nil || got != string(text) {
				t.Fatalf("%s %s is %q through MarshalText and %q through %s, err %v", cv.Name, show(val), text, got, how, err)
			}
		}
		if s, ok := v.Interface().(fmt.Stringer); ok {
			agree("String", s.String(), nil)
			agree("fmt", fmt.Sprint(v.Interface()), nil)
		}
		switch x := val.(type) {
		case chain.Bytes:
			agree("Hex", x.Hex(), nil)
		case chain.Blob:
			agree("Base64", x.Base64(), nil)
		}
		fromJSON := func(js []byte, err error) (string, error) {
			var s string
			if err == nil {
				err = json.Unmarshal(js, &s)
			}
			return s, err
		}
		if !utf8.Valid(text) {
			return
		}
		s, err := fromJSON(json.Marshal(val))
		agree("JSON", s, err)
		s, err = fromJSON(json.Marshal(v.Interface()))
		agree("JSON by pointer", s, err)
		if v.Elem().Type().Comparable() {
			m := reflect.MakeMap(reflect.MapOf(v.Elem().Type(), reflect.TypeOf(0)))
			m.SetMapIndex(v.Elem(), reflect.ValueOf(1))
			b, err := json.Marshal(m.Interface())
			var back map[string]int
			if err == nil {
				err = json.Unmarshal(b, &back)
			}
			if _, ok := back[string(text)]; err != nil || !ok || len(back) != 1 {
				t.Fatalf("%s %s is %q through MarshalText and %s as a JSON object key, err %v", cv.Name, show(val), text, b, err)
			}
		}
	})
}

// gSymBits leaves a symbol alone or gives it more decimals or odd characters.
func gSymBits(t *rapid.T, v uint64) uint64 {
	switch rapid.IntRange(0, 5).Draw(t, "symbits") {
	case 0:
		return v&^0xff | uint64(rapid.IntRange(0, 255).Draw(t, "decimals"))
	case 1:
		return v ^ 0x20<<(8*rapid.IntRange(1, 7).Draw(t, "char"))
	}
	return v
}
