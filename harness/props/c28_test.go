package props

import (
	"encoding"
	"encoding/json"
	"reflect"
	"strconv"
	"testing"

	"github.com/greymass/go-eosio/pkg/chain"
	"pgregory.net/rapid"
)

// ---- C28: rejected text leaves the variable as it was -----------------------

// gRefused draws JSON that is unlikely to be a value of any chain type.
func gRefused(t *rapid.T) string {
	return pick(t, "json", "5", "-1", "1.5", "1e3", "true", "false", "[]", "[1,2]", "{}", `{"Data":"00"}`, `{"Lo":1,"Hi":2}`, `{"Value":1}`, `{"Type":0,"Data":"AAAA"}`, `""`, `"x"`, `["x"]`, `[{}]`, `"-1"`, `"1.5"`, "4294967296", `"4294967296"`, "18446744073709551616", `"18446744073709551616"`, `"340282366920938463463374607431768211456"`, `"0x10"`, `"00"`, `"0"`, `"00112233"`, `"zz"`)
}

func TestC28(t *testing.T) {
	largeC28(t)
	var gens []cvGen
	for _, g := range scalarGens {
		if g.name != "ExtendedAsset" { // a plain struct for encoding/json
			gens = append(gens, g)
		}
	}
	// the variable, with its memory filled to capacity
	fill := func(cv CV) (reflect.Value, reflect.Value) {
		var track []reflect.Value
		v := deepCopy(reflect.ValueOf(cv.V), true, &track)
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		return p, deepCopy(v, false, &track)
	}
	untouched := func(t *rapid.T, name, how, s string, p, before reflect.Value, err error) {
		if err != nil && exact(p.Elem().Interface()) != exact(before.Interface()) {
			t.Fatalf("%s: reading %s through %s fails (%v) but changes the variable from %s to %s", name, strconv.Quote(s), how, err, show(before.Interface()), show(p.Elem().Interface()))
		}
	}
	check(t, "text", 30000, func(t *rapid.T) {
		cv := gSmallCV(t, gens, 400)
		tgt := cv
		// what the variable holds before: another value of the type
		if rapid.Bool().Draw(t, "other") {
			for i := range gens {
				if gens[i].name == cv.Name {
					tgt = gens[i].gen(t)
				}
			}
		}
		valid := "0"
		if len(cv.JSON) > 1 {
			valid = cv.JSON[1 : len(cv.JSON)-1]
		}
		s := gBadText(t, valid)
		p, before := fill(tgt)
		if u, ok := p.Interface().(encoding.TextUnmarshaler); ok {
			var err error
			if msg, bad := noPanic(func() { err = u.UnmarshalText([]byte(s)) }); bad {
				t.Fatalf("%s: reading %q panics: %s", cv.Name, s, msg)
			}
			stats.Case("text into "+cv.Name, err != nil, strconv.Quote(s))
			untouched(t, cv.Name, "UnmarshalText", s, p, before, err)
		}
		js, _ := json.Marshal(s)
		p, before = fill(tgt)
		var err error
		if msg, bad := noPanic(func() { err = json.Unmarshal(js, p.Interface()) }); bad {
			t.Fatalf("%s: reading %s panics: %s", cv.Name, js, msg)
		}
		stats.Case("JSON string into "+cv.Name, err != nil, string(js))
		untouched(t, cv.Name, "JSON", string(js), p, before, err)
	})
	check(t, "json", 12000, func(t *rapid.T) {
		cv := gSmallCV(t, gens, 400)
		js := gRefused(t)
		p, before := fill(cv)
		err := json.Unmarshal([]byte(js), p.Interface())
		stats.Case("JSON into "+cv.Name, err != nil, js)
		untouched(t, cv.Name, "JSON", js, p, before, err)
		// the methods called directly
		if u, ok := p.Interface().(json.Unmarshaler); ok {
			p, before := fill(cv)
			u = p.Interface().(json.Unmarshaler)
			err := u.UnmarshalJSON([]byte(js))
			untouched(t, cv.Name, "UnmarshalJSON", js, p, before, err)
		}
	})
	check(t, "field", 6000, func(t *rapid.T) {
		// a refused member of a struct, list or map
		cv := gSmallCV(t, gens, 200)
		js := gRefused(t)
		p, before := fill(cv)
		// a fresh decode tells whether it is refused
		if json.Unmarshal([]byte(js), reflect.New(p.Type().Elem()).Interface()) == nil {
			return
		}
		st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: p.Type().Elem(), Tag: `json:"a"`}, {Name: "B", Type: p.Type(), Tag: `json:"b"`}, {Name: "C", Type: reflect.SliceOf(p.Type().Elem()), Tag: `json:"c"`}}))
		st.Elem().Field(0).Set(p.Elem())
		q, _ := fill(cv)
		st.Elem().Field(1).Set(q)
		r, _ := fill(cv)
		st.Elem().Field(2).Set(reflect.Append(st.Elem().Field(2), r.Elem()))
		which := pick(t, "which", "a", "b", "c")
		text := `{"` + which + `":` + js + `}`
		if which == "c" {
			text = `{"c":[` + js + `]}`
		}
		err := json.Unmarshal([]byte(text), st.Interface())
		stats.Case("JSON member "+cv.Name, true, text)
		if err == nil {
			t.Fatalf("%s: %s is refused on its own and accepted in %s", cv.Name, js, text)
		}
		for i, got := range []reflect.Value{st.Elem().Field(0), st.Elem().Field(1).Elem()} {
			if exact(got.Interface()) != exact(before.Interface()) {
				t.Fatalf("%s: reading %s fails (%v) but changes field %d from %s to %s", cv.Name, text, err, i, show(before.Interface()), show(got.Interface()))
			}
		}
	})
}

var _ chain.Name
