package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/greymass/go-eosio/pkg/chain"
	"pgregory.net/rapid"

	"verif/ref"
)

// ---- C10 ------------------------------------------------------------------------

func abiCase(t *rapid.T, c *aCase, label string) {
	a := c.s.abi
	nm := c.e.name()
	stats.Case(label, c.interest, c.key())
	b, err := abiEnc(a, nm, roomy(t, c.in))
	if err != nil {
		t.Fatalf("%s\ndoes not encode: %v", c, err)
	}
	if !bytes.Equal(b, c.wire) {
		t.Fatalf("%s\nencodes to %s\nwant       %s", c, hexs(b), hexs(c.wire))
	}
	tail := rapid.IntRange(0, 2).Draw(t, "ntail")
	if len(c.cuts) > 0 {
		tail = 0 // more data would belong to the extension
	}
	got, left, err := abiDec(a, nm, append(append([]byte{}, c.wire...), make([]byte, tail)...))
	if err != nil || left != tail || !sameI(got, c.out) {
		t.Fatalf("%s\nwire %s decodes to %s, err %v, %d left of %d", c, hexs(c.wire), show(got), err, left, tail)
	}
	b, err = abiEnc(a, nm, got)
	if err != nil || !bytes.Equal(b, c.wire) {
		t.Fatalf("%s\ndecoded value %s encodes to %s, err %v, want %s", c, show(got), hexs(b), err, hexs(c.wire))
	}
}

func TestC10(t *testing.T) {
	largeC10(t)
	check(t, "values", 6000, func(t *rapid.T) { abiCase(t, gACase(t, schemaOpts{}, false), "random ABI and value") })
	check(t, "large", 800, func(t *rapid.T) { abiCase(t, gACase(t, schemaOpts{maxDefs: 12}, false), "random larger ABI and value") })
	check(t, "builtins", 3000, func(t *rapid.T) {
		e := gBuiltin(t)
		cv := e.builtin.gen(t)
		a := &chain.Abi{}
		stats.Case("builtin", cv.Interest, e.text+" "+hexs(cv.Wire))
		b, err := abiEnc(a, e.text, cv.V)
		direct, err2 := enc(cv.V)
		if err != nil || err2 != nil || !bytes.Equal(b, cv.Wire) || !bytes.Equal(direct, b) {
			t.Fatalf("%s %s: ABI %s err %v, direct %s err %v, want %s", e.text, show(cv.V), hexs(b), err, hexs(direct), err2, hexs(cv.Wire))
		}
		got, left, err := abiDec(a, e.text, cv.Wire)
		if err != nil || left != 0 || !sameI(got, cv.V) {
			t.Fatalf("%s from %s: %s (%T), err %v; want %s", e.text, hexs(cv.Wire), show(got), got, err, show(cv.V))
		}
	})
	check(t, "actions", 2500, func(t *rapid.T) {
		s := gSchema(t, schemaOpts{})
		var names []chain.Name
		for _, x := range s.abi.Actions {
			names = append(names, x.Name)
		}
		n := names[rapid.IntRange(0, len(names)-1).Draw(t, "act")]
		c := gAValue(t, s, AE{def: s.actions[n]}, false)
		stats.Case("action data", c.interest, fmt.Sprint(uint64(n))+c.key())
		var b bytes.Buffer
		if err := s.abi.EncodeAction(&b, n, c.in); err != nil || !bytes.Equal(b.Bytes(), c.wire) {
			t.Fatalf("action %s, %s: %s, err %v, want %s", n, c, hexs(b.Bytes()), err, hexs(c.wire))
		}
		got, err := s.abi.DecodeAction(bytes.NewReader(c.wire), n)
		if err != nil || !sameI(got, c.out) {
			t.Fatalf("action %s, %s: %s, err %v", n, c, show(got), err)
		}
		act := chain.Action{Account: 1, Name: n, Data: c.wire}
		m, err := act.Decode(s.abi)
		want, isMap := c.out.(map[string]interface{})
		if isMap && (err != nil || !sameI(m, want)) || !isMap && err == nil {
			t.Fatalf("Action.Decode of %s, %s: %s, err %v", n, c, show(m), err)
		}
	})
	check(t, "decode into", 1500, func(t *rapid.T) {
		g := gStructType(t, 3, gOpts{maps: true, variants: true, extensions: true}, true)
		x := &vgen{t: t, budget: 1500}
		v, w := x.value(g, 0)
		act := chain.Action{Data: w.flat()}
		p := reflect.New(g.RT)
		stats.Case("Action.DecodeInto", x.interest, keyOf(g, w.flat()))
		if err := act.DecodeInto(p.Interface()); err != nil || !same(p.Elem(), v) {
			t.Fatalf("DecodeInto %s from %s: %s, err %v", g, hexs(act.Data), show(p.Elem().Interface()), err)
		}
	})
	check(t, "redefined", 1000, redefined)
	check(t, "edited", 2000, edited)
	check(t, "stored", 600, func(t *rapid.T) {
		// an ABI that came from JSON or from its binary form works the same
		c := gACase(t, schemaOpts{}, false)
		var a chain.Abi
		if rapid.Bool().Draw(t, "json") {
			b, err := json.Marshal(c.s.abi)
			if err != nil || json.Unmarshal(b, &a) != nil {
				t.Fatalf("abi json: %v", err)
			}
		} else {
			b, err := enc(*c.s.abi)
			if err != nil {
				t.Fatalf("abi binary: %v", err)
			}
			if _, err := dec(b, &a); err != nil {
				t.Fatalf("abi binary: %v", err)
			}
		}
		d := *c
		s := *c.s
		s.abi = &a
		d.s = &s
		abiCase(t, &d, "stored ABI")
	})
	check(t, "long lists", 200, func(t *rapid.T) {
		s := gSchema(t, schemaOpts{})
		e := s.top(t)
		e.arr, e.opt, e.ext, e.rev = false, false, false, false
		var cs []*aCase
		most := 1
		for i := 0; i < 4; i++ {
			c := gAValue(t, s, e, true)
			if len(c.cuts) > 0 {
				return // extensions don't repeat
			}
			cs = append(cs, c)
			if len(c.wire) > most {
				most = len(c.wire)
			}
		}
		n := pick(t, "n", 15, 16, 17, 32, 33, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 2049, 4097, 10001, 16383, 16384)
		if n*most > 200000 {
			n = 200000 / most
		}
		size := 0
		for _, c := range cs {
			size += len(c.wire)
		}
		if size < 4 && n > 1000 {
			n = 1000
		}
		seed := rapid.Uint64().Draw(t, "order")
		var in, out []interface{}
		w := ref.W(func(y *ref.Wire) { y.Varuint(uint32(n)) })
		for i := 0; i < n; i++ {
			seed = seed*6364136223846793005 + 1442695040888963407
			c := cs[int(seed>>33)%len(cs)]
			in, out = append(in, c.in), append(out, c.out)
			w = append(w, c.wire...)
		}
		nm := e.name() + "[]"
		stats.Case("long lists", size > 4, fmt.Sprint(s.text(), nm, n, seed))
		b, err := abiEnc(s.abi, nm, in)
		if err != nil || !bytes.Equal(b, w) {
			t.Fatalf("%s: %d x %s: err %v, %d bytes, want %d", s.text(), n, nm, err, len(b), len(w))
		}
		got, left, err := abiDec(s.abi, nm, w)
		if err != nil || left != 0 || !sameI(got, out) {
			t.Fatalf("%s: %d x %s (%d bytes) decodes with err %v, %d left", s.text(), n, nm, len(w), err, left)
		}
	})
	check(t, "deep inheritance", 300, func(t *rapid.T) {
		n := rapid.IntRange(2, 40).Draw(t, "n")
		a := &chain.Abi{}
		in := map[string]interface{}{}
		var wire []byte
		for i := 0; i < n; i++ {
			s := chain.AbiStruct{Name: fmt.Sprintf("s%d", i)}
			if i > 0 {
				s.Base = fmt.Sprintf("s%d", i-1)
				if rapid.IntRange(0, 3).Draw(t, "viaalias") == 3 {
					al := fmt.Sprintf("al%d", i)
					a.Types = append(a.Types, chain.AbiType{NewTypeName: al, Type: s.Base})
					s.Base = al
				}
			}
			for j, k := 0, rapid.IntRange(0, 2).Draw(t, "nf"); j < k; j++ {
				f := fmt.Sprintf("f%d_%d", i, j)
				s.Fields = append(s.Fields, chain.AbiField{Name: f, Type: "uint8"})
				v := gU8(t, "v")
				in[f] = v
				wire = append(wire, v)
			}
			a.Structs = append(a.Structs, s)
		}
		if rapid.Bool().Draw(t, "rev") {
			rev(a.Structs)
		}
		top := fmt.Sprintf("s%d", n-1)
		stats.Case("deep inheritance", len(wire) > 1, fmt.Sprint(n, a.Types, wire))
		b, err := abiEnc(a, top, in)
		if err != nil || !bytes.Equal(b, wire) {
			t.Fatalf("%d levels: %x err %v, want %x", n, b, err, wire)
		}
		got, left, err := abiDec(a, top, wire)
		if err != nil || left != 0 || !sameI(got, in) {
			t.Fatalf("%d levels: %s, err %v", n, show(got), err)
		}
	})
	check(t, "wide variants", 200, func(t *rapid.T) {
		// more alternatives, and more definitions, than a byte counts
		n := pick(t, "n", 100, 127, 128, 129, 200, 256, 257, 300, 400, 520, 600)
		a := &chain.Abi{Variants: []chain.AbiVariant{{Name: "v"}}}
		perm := rapid.Uint64().Draw(t, "perm")
		for i := 0; i < n; i++ {
			nm := fmt.Sprintf("s%d", i)
			a.Structs = append(a.Structs, chain.AbiStruct{Name: nm, Fields: []chain.AbiField{{Name: fmt.Sprintf("f%d", i), Type: "uint16"}}})
			a.Variants[0].Types = append(a.Variants[0].Types, nm)
		}
		for i := n - 1; i > 0; i-- { // the order of definitions means nothing
			perm = perm*6364136223846793005 + 1442695040888963407
			j := int(perm>>33) % (i + 1)
			a.Structs[i], a.Structs[j] = a.Structs[j], a.Structs[i]
		}
		var in []interface{}
		var at []int
		w := &ref.Wire{}
		k := rapid.IntRange(1, 8).Draw(t, "count")
		w.Varuint(uint32(k))
		for ; k > 0; k-- {
			i := pick(t, "edge", rapid.IntRange(0, n-1).Draw(t, "choice"), n-1, min(n-1, 256), min(n-1, 128))
			x := gU16(t, "x")
			at = append(at, i)
			w.Varuint(uint32(i))
			w.Raw([]byte{byte(x), byte(x >> 8)})
			in = append(in, []interface{}{fmt.Sprintf("s%d", i), map[string]interface{}{fmt.Sprintf("f%d", i): x}})
		}
		stats.Case("wide variants", true, fmt.Sprint(n, at))
		wire := w.B
		b, err := abiEnc(a, "v[]", in)
		if err != nil || !bytes.Equal(b, wire) {
			t.Fatalf("variant of %d structs, choices %v: %x, err %v, want %x", n, at, b, err, wire)
		}
		got, left, err := abiDec(a, "v[]", wire)
		if err != nil || left != 0 || !sameI(got, interface{}(in)) {
			t.Fatalf("variant of %d structs, choices %v: %s, err %v, %d left", n, at, show(got), err, left)
		}
	})
}

// ---- C11 --------------------------------------------------------------------------

type alien struct{ X int }

// wrongs gives values that fit no builtin but the ones of their own type.
func wrongs(t *rapid.T, n *ANode) interface{} {
	pool := []interface{}{int(5), uint(5), int8(1), uint8(1), int16(1), uint16(1), int32(1), uint32(1), int64(1), uint64(1), "text", "12", true, 1.5, float32(2),
		[]byte{1}, []string{"a"}, map[string]string{"a": "b"}, alien{1}, &alien{1}, map[int]int{1: 1},
		chain.Name(5), chain.Asset{}, chain.Bytes{1, 2}, chain.Uint128{Lo: 1}, chain.Int128{}, chain.TimePoint(1), chain.TimePointSec(1), chain.BlockTimestamp(2), chain.BlockNum(2),
		chain.Checksum160{}, chain.Checksum256{}, chain.Checksum512{}, chain.Symbol(1), chain.SymbolCode(1), chain.PublicKey{}, chain.Signature{}, chain.Uint64(7), chain.Blob{1}, chain.ExtendedAsset{}, chain.Float128{},
		[]interface{}{}, []interface{}{uint8(1)}, []interface{}{1, 2, 3}, map[string]interface{}{}, map[string]interface{}{"a": 1},
		(*chain.Name)(nil), []uint16{1}, func() {}, json.Number("5"), complex(1, 2)}
	return pool[rapid.IntRange(0, len(pool)-1).Draw(t, "wrong")]
}

// fits: v is an acceptable Go type for the node.
func fits(n *ANode, v interface{}) bool {
	e := n.typ
	for !e.arr && e.def != nil && e.def.kind == dAlias {
		e = e.def.alias
	}
	switch {
	case e.arr:
		_, ok := v.([]interface{})
		return ok
	case e.def != nil && e.def.kind == dVariant:
		_, ok := v.([]interface{})
		return ok
	case e.def != nil:
		_, ok := v.(map[string]interface{})
		return ok
	}
	want := map[string][]interface{}{
		"uint64": {uint64(0), chain.Uint64(0)}, "bytes": {[]byte{}, chain.Bytes{}},
	}[e.text]
	if want == nil {
		want = []interface{}{reflect.Zero(builtinGo(e)).Interface()}
	}
	for _, w := range want {
		if reflect.TypeOf(w) == reflect.TypeOf(v) {
			return true
		}
	}
	return false
}

func builtinGo(e AE) reflect.Type {
	n := e.builtin.name
	if n == "eosio::name" {
		n = "Name"
	}
	return leafTypes[n]
}

func TestC11(t *testing.T) {
	largeC11(t)
	fail := func(t *rapid.T, c *aCase, v interface{}, what string) {
		stats.Case(strings.SplitN(what, ":", 2)[0], true, c.key()+what)
		var err error
		var b []byte
		if msg, bad := noPanic(func() { b, err = abiEnc(c.s.abi, c.e.name(), v) }); bad {
			t.Fatalf("%s\n%s\npanics: %s", c, what, msg)
		}
		if err == nil {
			t.Fatalf("%s\n%s\nis accepted and encoded as %s: %s", c, what, hexs(b), show(v))
		}
	}
	check(t, "mismatch", 6000, func(t *rapid.T) {
		c := gACase(t, schemaOpts{}, true)
		n := c.nodes[rapid.IntRange(0, len(c.nodes)-1).Draw(t, "node")]
		how := rapid.IntRange(0, 5).Draw(t, "how")
		switch {
		case how == 0 && !n.nilable && !n.ext:
			n.set(nil)
			fail(t, c, *c.root, "nil: at "+n.path)
		case how == 1 && n.del != nil && !n.nilable && !n.ext:
			n.del()
			fail(t, c, *c.root, "missing field: "+n.path)
		case how >= 2 && n.kind == "variant":
			cur, _ := n.cur().([]interface{})
			if len(cur) != 2 {
				return
			}
			var bad interface{}
			what := ""
			switch rapid.IntRange(0, 8).Draw(t, "variant") {
			case 0:
				bad, what = []interface{}{}, "empty"
			case 1:
				bad, what = []interface{}{cur[0]}, "no value"
			case 2:
				x := []interface{}{cur[0], cur[1]}
				for k := pick(t, "more", 1, 1, 1, 1, 1, 1, 2, 14, 254, 256, 65536); k > 0; k-- {
					x = append(x, cur[1])
				}
				bad, what = x, fmt.Sprint(len(x), " elements")
			case 3:
				bad, what = []interface{}{"no such type", cur[1]}, "unknown alternative"
			case 4:
				bad, what = []interface{}{0, cur[1]}, "index instead of a name"
			case 5:
				bad, what = []interface{}{nil, cur[1]}, "nil name"
			case 6:
				bad, what = cur[1], "bare value"
				if x, ok := bad.([]interface{}); ok && len(x) == 2 {
					return
				}
				if bad == nil && n.nilable {
					return
				}
			case 7:
				bad, what = []interface{}{cur[0].(string) + " ", cur[1]}, "name with a space"
			case 8:
				bad, what = []interface{}{chain.N("a"), cur[1]}, "name of another type"
			}
			n.set(bad)
			fail(t, c, *c.root, "malformed variant: "+what+" at "+n.path)
		default:
			v := wrongs(t, n)
			if fits(n, v) {
				return
			}
			n.set(v)
			fail(t, c, *c.root, fmt.Sprintf("wrong type: %T for %s (%s) at %s", v, n.typ.name(), n.kind, n.path))
		}
	})
	check(t, "extension", 1500, func(t *rapid.T) {
		// an extension left out with a later one present, or given as nil
		k := rapid.IntRange(2, 5).Draw(t, "n")
		st := chain.AbiStruct{Name: "s", Fields: []chain.AbiField{{Name: "f", Type: "uint8"}}}
		in := map[string]interface{}{"f": uint8(1)}
		for i := 0; i < k; i++ {
			nm := fmt.Sprint("e", i)
			st.Fields = append(st.Fields, chain.AbiField{Name: nm, Type: "uint16$"})
			in[nm] = uint16(i)
		}
		a := &chain.Abi{Structs: []chain.AbiStruct{st}}
		i := rapid.IntRange(0, k-2).Draw(t, "i")
		if rapid.Bool().Draw(t, "nil") {
			in[fmt.Sprint("e", i)] = nil
		} else {
			delete(in, fmt.Sprint("e", i))
		}
		stats.Case("extension gap", true, show(in))
		var err error
		if msg, bad := noPanic(func() { _, err = abiEnc(a, "s", in) }); bad || err == nil {
			t.Fatalf("%s with extensions: err %v %s", show(in), err, msg)
		}
	})
	check(t, "unknown", 2000, func(t *rapid.T) {
		s := gSchema(t, schemaOpts{maxDefs: 3})
		nm := pick(t, "name", "", "nosuch", "nosuch[]", "nosuch?", "nosuch[]?", "Name", "uint", "uint7", "int256", "a.b", "names[]", "asset ", " asset", "bool[", "bool]", "uint8 []", "[]uint8", "?uint8", "NAME", "uint64_t", "float", "double", "varint", "varuint", "checksum", "time", "block_timestamp", "[]", "?", "map<string,string>", "void")
		base := strings.TrimSuffix(strings.TrimSuffix(nm, "?"), "[]")
		for _, d := range s.defs {
			if d.name == base || d.name == nm {
				return
			}
		}
		var v interface{} = pick[interface{}](t, "v", interface{}(uint8(1)), "x", map[string]interface{}{}, []interface{}{uint8(1)}, chain.Name(1), true)
		if strings.HasSuffix(strings.TrimSuffix(nm, "?"), "[]") {
			v = []interface{}{v}
		}
		stats.Case("unknown type", true, nm+show(v))
		var err error
		if msg, bad := noPanic(func() { _, err = abiEnc(s.abi, nm, v) }); bad || err == nil {
			t.Fatalf("encoding as unknown type %q (%s): err %v %s", nm, s.text(), err, msg)
		}
		if msg, bad := noPanic(func() { _, _, err = abiDec(s.abi, nm, bytes.Repeat([]byte{1}, 50)) }); bad || err == nil {
			t.Fatalf("decoding unknown type %q (%s): err %v %s", nm, s.text(), err, msg)
		}
	})
	check(t, "unknown action", 1000, func(t *rapid.T) {
		s := gSchema(t, schemaOpts{maxDefs: 3})
		n := gName(t, "act")
		if _, ok := s.actions[n]; ok {
			return
		}
		stats.Case("unknown action", true, fmt.Sprint(uint64(n)))
		var err error
		if msg, bad := noPanic(func() { err = s.abi.EncodeAction(&bytes.Buffer{}, n, map[string]interface{}{}) }); bad || err == nil {
			t.Fatalf("encoding unknown action %q: err %v %s", n, err, msg)
		}
		if msg, bad := noPanic(func() { _, err = s.abi.DecodeAction(bytes.NewReader(make([]byte, 50)), n) }); bad || err == nil {
			t.Fatalf("decoding unknown action %q: err %v %s", n, err, msg)
		}
		act := chain.Action{Name: n, Data: make([]byte, 50)}
		if msg, bad := noPanic(func() { _, err = act.Decode(s.abi) }); bad || err == nil {
			t.Fatalf("decoding unknown action %q: err %v %s", n, err, msg)
		}
	})
}

// ---- C12 --------------------------------------------------------------------------------

// gBadABI draws definitions from a small pool of names without any care.
func gBadABI(t *rapid.T) (*chain.Abi, []string) {
	pool := []string{"a", "b", "c", "d", "s"}
	odd := []string{"", "[]", "?", "$", "[][]", "??", "?[]", "a[][]", "a??", "$$", "[", "]", "a[", "a]", "[]a", "?a", "a[]$?", "a$[]", "a?$", "a$?", "a?[]", "nosuch", "uint8", "name", "string", "uint8[]", "uint8?", "bytes", "a[]?", "b[]", "c?", "d$", "s[]", "\x00", "é", " ", "uint8$", "varuint32"}
	ref := func(name string) string {
		if rapid.IntRange(0, 2).Draw(t, name) < 2 {
			s := pool[rapid.IntRange(0, len(pool)-1).Draw(t, name+".p")]
			return s + pick(t, name+".s", "", "", "", "[]", "?", "[]?", "$", "?$")
		}
		return odd[rapid.IntRange(0, len(odd)-1).Draw(t, name+".o")]
	}
	def := func(name string) string {
		if chance(t, name+".odd", 8) {
			return odd[rapid.IntRange(0, len(odd)-1).Draw(t, name+".do")]
		}
		return pool[rapid.IntRange(0, len(pool)-1).Draw(t, name+".d")]
	}
	a := &chain.Abi{}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "nstructs"); i < n; i++ {
		s := chain.AbiStruct{Name: def("sname")}
		if rapid.Bool().Draw(t, "hasbase") {
			s.Base = ref("base")
		}
		for j, m := 0, rapid.IntRange(0, 3).Draw(t, "nfields"); j < m; j++ {
			s.Fields = append(s.Fields, chain.AbiField{Name: pick(t, "fname", "x", "y", "", "x"), Type: ref("ftype")})
		}
		a.Structs = append(a.Structs, s)
	}
	for i, n := 0, rapid.IntRange(0, 2).Draw(t, "nvariants"); i < n; i++ {
		v := chain.AbiVariant{Name: def("vname")}
		for j, m := 0, rapid.IntRange(0, 3).Draw(t, "nalts"); j < m; j++ {
			v.Types = append(v.Types, ref("alt"))
		}
		a.Variants = append(a.Variants, v)
	}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "naliases"); i < n; i++ {
		a.Types = append(a.Types, chain.AbiType{NewTypeName: def("aname"), Type: ref("atype")})
	}
	var names []string
	for i := 0; i < 3; i++ {
		names = append(names, ref("top"))
	}
	for i, n := range names {
		a.Actions = append(a.Actions, chain.AbiAction{Name: chain.Name(i), Type: n})
	}
	return a, names
}

// gLoose draws a value that looks like ABI data.
func gLoose(t *rapid.T, depth int) interface{} {
	k := rapid.IntRange(0, 7).Draw(t, "loose")
	if depth <= 0 && k >= 4 {
		k -= 4
	}
	switch k {
	case 0:
		return nil
	case 1:
		return uint8(1)
	case 2:
		return pick[interface{}](t, "leaf", interface{}("x"), chain.Name(1), "a", "b[]", []byte{1}, uint(3), "")
	case 3:
		return []interface{}{}
	case 4, 5:
		m := map[string]interface{}{}
		for _, f := range []string{"x", "y", ""} {
			if rapid.Bool().Draw(t, "has") {
				m[f] = gLoose(t, depth-1)
			}
		}
		return m
	case 6: // variant
		return []interface{}{pick(t, "alt", "a", "b", "c", "s", "uint8", "a[]", "", "a?"), gLoose(t, depth-1)}
	default:
		var l []interface{}
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "n"); i < n; i++ {
			l = append(l, gLoose(t, depth-1))
		}
		return l
	}
}

func TestC12(t *testing.T) {
	largeC12(t)
	run := func(t *rapid.T, a *chain.Abi, name string, in []byte, v interface{}) {
		Journal("ABI %+v type %q data %x value %s", *a, name, in, show(v))
		var err error
		var rv interface{}
		var msg string
		var bad bool
		used := allocated(func() { msg, bad = noPanic(func() { rv, _, err = abiDec(a, name, in) }) })
		stats.Case("decode", true, fmt.Sprintf("%v %q %x", *a, name, in))
		if err == nil {
			stats.Count("decode: accepted")
		}
		if bad {
			t.Fatalf("ABI %+v\ndecoding %q from %x panics: %s", *a, name, in, msg)
		}
		if used > uint64(allocBase+allocPer*len(in)) {
			t.Fatalf("ABI %+v\ndecoding %q from %x allocates %d bytes", *a, name, in, used)
		}
		if err == nil {
			if msg, bad := noPanic(func() { _, _ = abiEnc(a, name, rv) }); bad {
				t.Fatalf("ABI %+v\nencoding %q %s panics: %s", *a, name, show(rv), msg)
			}
		}
		if msg, bad := noPanic(func() { _, err = abiEnc(a, name, v) }); bad {
			t.Fatalf("ABI %+v\nencoding %q %s panics: %s", *a, name, show(v), msg)
		}
		stats.Case("encode", true, fmt.Sprintf("%v %q %s", *a, name, show(v)))
		if err == nil {
			stats.Count("encode: accepted")
		}
	}
	check(t, "random", 6000, func(t *rapid.T) {
		a, names := gBadABI(t)
		for i, n := range names {
			in := gFill(t, "data", rapid.IntRange(0, 30).Draw(t, "n"))
			if rapid.Bool().Draw(t, "ones") {
				in = bytes.Repeat([]byte{1}, rapid.IntRange(0, 200).Draw(t, "n1"))
			}
			v := gLoose(t, 4)
			run(t, a, n, in, v)
			if msg, bad := noPanic(func() {
				_, _ = a.DecodeAction(bytes.NewReader(in), chain.Name(i))
				_ = a.EncodeAction(&bytes.Buffer{}, chain.Name(i), v)
				_, _ = chain.Action{Name: chain.Name(i), Data: in}.Decode(a)
			}); bad {
				t.Fatalf("ABI %+v\naction of type %q panics: %s", *a, n, msg)
			}
		}
	})
	check(t, "self-referencing values", 1500, func(t *rapid.T) {
		// a value that contains itself meets a type that contains itself
		a, names := gBadABI(t)
		m := map[string]interface{}{}
		l := []interface{}{nil}
		v2 := []interface{}{pick(t, "alt", "a", "b", "s"), nil}
		m["x"] = pick[interface{}](t, "mx", interface{}(m), l, v2)
		m["y"] = pick[interface{}](t, "my", interface{}(m), l, v2)
		l[0] = pick[interface{}](t, "l0", interface{}(m), l, v2)
		v2[1] = pick[interface{}](t, "v1", interface{}(m), l, v2)
		top := pick[interface{}](t, "top", interface{}(m), l, v2)
		for _, n := range names {
			Journal("ABI %+v type %q value that contains itself", *a, n)
			stats.Case("encode a value that contains itself", true, fmt.Sprintf("%v %q", *a, n))
			if msg, bad := noPanic(func() { _, _ = abiEnc(a, n, top) }); bad {
				t.Fatalf("ABI %+v\nencoding %q panics: %s", *a, n, msg)
			}
		}
	})
	check(t, "cycles", 1500, func(t *rapid.T) {
		// rings of aliases, bases, fields and variants of every length
		n := rapid.IntRange(1, 6).Draw(t, "ring")
		a := &chain.Abi{}
		var m map[string]interface{} = map[string]interface{}{}
		m["f"] = m
		for i := 0; i < n; i++ {
			nm, next := fmt.Sprintf("t%d", i), fmt.Sprintf("t%d", (i+1)%n)+pick(t, "suffix", "", "", "", "?", "[]", "$")
			switch rapid.IntRange(0, 3).Draw(t, "link") {
			case 0:
				a.Types = append(a.Types, chain.AbiType{NewTypeName: nm, Type: next})
			case 1:
				a.Structs = append(a.Structs, chain.AbiStruct{Name: nm, Base: next})
			case 2:
				a.Structs = append(a.Structs, chain.AbiStruct{Name: nm, Fields: []chain.AbiField{{Name: "f", Type: next}}})
			case 3:
				a.Variants = append(a.Variants, chain.AbiVariant{Name: nm, Types: []string{next}})
			}
		}
		in := bytes.Repeat([]byte{pick(t, "b", byte(0), 1, 2)}, pick(t, "len", 0, 1, 50, 30000))
		run(t, a, "t0"+pick(t, "top", "", "[]", "?"), in, pick[interface{}](t, "v", interface{}(m), nil, []interface{}{m}, gLoose(t, 3)))
	})
}

// ---- C13 ------------------------------------------------------------------------------------

func gAbiDef(t *rapid.T, gs func(string) string) chain.Abi {
	a := chain.Abi{Version: gs("version")}
	n := func(name string) int {
		if chance(t, name+".many", 25) {
			return pick(t, name+".count", 127, 128, 130)
		}
		return rapid.IntRange(0, 3).Draw(t, name)
	}
	rep := func(name string, f func()) {
		for i, k := 0, n(name); i < k; i++ {
			f()
			if i > 4 {
				break
			}
		}
	}
	strs := func(name string) []string {
		var s []string
		rep(name, func() { s = append(s, gs(name)) })
		return s
	}
	rep("types", func() { a.Types = append(a.Types, chain.AbiType{NewTypeName: gs("nt"), Type: gs("ty")}) })
	rep("structs", func() {
		s := chain.AbiStruct{Name: gs("sn"), Base: gs("sb")}
		rep("fields", func() { s.Fields = append(s.Fields, chain.AbiField{Name: gs("fn"), Type: gs("ft")}) })
		a.Structs = append(a.Structs, s)
	})
	rep("actions", func() {
		a.Actions = append(a.Actions, chain.AbiAction{Name: gName(t, "an"), Type: gs("at"), RicardianContract: gs("rc")})
	})
	rep("tables", func() {
		a.Tables = append(a.Tables, chain.AbiTable{Name: gName(t, "tn"), IndexType: gs("it"), KeyNames: strs("kn"), KeyTypes: strs("kt"), Type: gs("tt")})
	})
	rep("clauses", func() {
		a.RicardianClauses = append(a.RicardianClauses, chain.AbiClause{Id: gs("id"), Body: gs("body")})
	})
	rep("errors", func() {
		a.ErrorMessages = append(a.ErrorMessages, chain.AbiErrorMessage{Code: chain.Uint64(gU64(t, "code")), Message: gs("msg")})
	})
	rep("exts", func() {
		a.Extensions = append(a.Extensions, &chain.AbiExtension{Type: gU16(t, "et"), Data: gBytes(t, "ed", 300)})
	})
	rep("variants", func() { a.Variants = append(a.Variants, chain.AbiVariant{Name: gs("vn"), Types: strs("vt")}) })
	return a
}

// abiWire is the abi_def layout; withVariants false stops after the extensions.
func abiWire(a chain.Abi, withVariants bool) []byte {
	w := &ref.Wire{}
	strs := func(s []string) {
		w.Varuint(uint32(len(s)))
		for _, x := range s {
			w.Str(x)
		}
	}
	w.Str(a.Version)
	w.Varuint(uint32(len(a.Types)))
	for _, x := range a.Types {
		w.Str(x.NewTypeName)
		w.Str(x.Type)
	}
	w.Varuint(uint32(len(a.Structs)))
	for _, x := range a.Structs {
		w.Str(x.Name)
		w.Str(x.Base)
		w.Varuint(uint32(len(x.Fields)))
		for _, f := range x.Fields {
			w.Str(f.Name)
			w.Str(f.Type)
		}
	}
	w.Varuint(uint32(len(a.Actions)))
	for _, x := range a.Actions {
		w.U64(uint64(x.Name))
		w.Str(x.Type)
		w.Str(x.RicardianContract)
	}
	w.Varuint(uint32(len(a.Tables)))
	for _, x := range a.Tables {
		w.U64(uint64(x.Name))
		w.Str(x.IndexType)
		strs(x.KeyNames)
		strs(x.KeyTypes)
		w.Str(x.Type)
	}
	w.Varuint(uint32(len(a.RicardianClauses)))
	for _, x := range a.RicardianClauses {
		w.Str(x.Id)
		w.Str(x.Body)
	}
	w.Varuint(uint32(len(a.ErrorMessages)))
	for _, x := range a.ErrorMessages {
		w.U64(uint64(x.Code))
		w.Str(x.Message)
	}
	w.Varuint(uint32(len(a.Extensions)))
	for _, x := range a.Extensions {
		w.U16(x.Type)
		w.Bytes(x.Data)
	}
	if withVariants {
		w.Varuint(uint32(len(a.Variants)))
		for _, x := range a.Variants {
			w.Str(x.Name)
			strs(x.Types)
		}
	}
	return w.B
}

// abiJSON is the same definition as nodeos writes it.
func abiJSON(a chain.Abi) string {
	type o = map[string]interface{}
	list := func(n int, f func(i int) interface{}) []interface{} {
		l := []interface{}{}
		for i := 0; i < n; i++ {
			l = append(l, f(i))
		}
		return l
	}
	strs := func(s []string) []string { return append([]string{}, s...) }
	b, err := json.Marshal(o{
		"version": a.Version,
		"types":   list(len(a.Types), func(i int) interface{} { return o{"new_type_name": a.Types[i].NewTypeName, "type": a.Types[i].Type} }),
		"structs": list(len(a.Structs), func(i int) interface{} {
			s := a.Structs[i]
			return o{"name": s.Name, "base": s.Base, "fields": list(len(s.Fields), func(j int) interface{} { return o{"name": s.Fields[j].Name, "type": s.Fields[j].Type} })}
		}),
		"actions": list(len(a.Actions), func(i int) interface{} {
			x := a.Actions[i]
			return o{"name": ref.NameText(uint64(x.Name)), "type": x.Type, "ricardian_contract": x.RicardianContract}
		}),
		"tables": list(len(a.Tables), func(i int) interface{} {
			x := a.Tables[i]
			return o{"name": ref.NameText(uint64(x.Name)), "index_type": x.IndexType, "key_names": strs(x.KeyNames), "key_types": strs(x.KeyTypes), "type": x.Type}
		}),
		"ricardian_clauses": list(len(a.RicardianClauses), func(i int) interface{} {
			return o{"id": a.RicardianClauses[i].Id, "body": a.RicardianClauses[i].Body}
		}),
		"error_messages": list(len(a.ErrorMessages), func(i int) interface{} {
			return o{"error_code": json.RawMessage(uintJSON(uint64(a.ErrorMessages[i].Code))), "error_msg": a.ErrorMessages[i].Message}
		}),
		"abi_extensions": list(len(a.Extensions), func(i int) interface{} {
			return o{"type": a.Extensions[i].Type, "data": ref.Hex(a.Extensions[i].Data)}
		}),
		"variants": list(len(a.Variants), func(i int) interface{} { return o{"name": a.Variants[i].Name, "types": strs(a.Variants[i].Types)} }),
	})
	if err != nil {
		panic(err)
	}
	return string(b)
}

// jsonSame compares two JSON texts; absent, null and empty lists are the same.
func jsonSame(a, b string) bool {
	var x, y interface{}
	d1, d2 := json.NewDecoder(strings.NewReader(a)), json.NewDecoder(strings.NewReader(b))
	d1.UseNumber()
	d2.UseNumber()
	if d1.Decode(&x) != nil || d2.Decode(&y) != nil {
		return false
	}
	return reflect.DeepEqual(pruneJSON(x), pruneJSON(y))
}

func pruneJSON(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		for k, e := range x {
			e = pruneJSON(e)
			if l, ok := e.([]interface{}); e == nil || ok && len(l) == 0 {
				delete(x, k)
				continue
			}
			x[k] = e
		}
	case []interface{}:
		for i := range x {
			x[i] = pruneJSON(x[i])
		}
	}
	return v
}

// lookups compares the lookup functions with a linear search; the sections are equally long.
func lookups(t *rapid.T, a chain.Abi, q string, qn chain.Name) {
	var ty *chain.AbiType
	var st *chain.AbiStruct
	var va *chain.AbiVariant
	var ac *chain.AbiAction
	var ta *chain.AbiTable
	for i := len(a.Types) - 1; i >= 0; i-- {
		if a.Types[i].NewTypeName == q {
			ty = &a.Types[i]
		}
		if a.Structs[i].Name == q {
			st = &a.Structs[i]
		}
		if a.Variants[i].Name == q {
			va = &a.Variants[i]
		}
		if a.Actions[i].Name == qn {
			ac = &a.Actions[i]
		}
		if a.Tables[i].Name == qn {
			ta = &a.Tables[i]
		}
	}
	if g := a.GetType(q); !sameI(g, ty) {
		t.Fatalf("GetType(%q) = %s in %s", q, show(g), show(a))
	}
	if g := a.GetStruct(q); !sameI(g, st) {
		t.Fatalf("GetStruct(%q) = %s in %s", q, show(g), show(a))
	}
	if g := a.GetVariant(q); !sameI(g, va) {
		t.Fatalf("GetVariant(%q) = %s in %s", q, show(g), show(a))
	}
	if g := a.GetAction(qn); !sameI(g, ac) {
		t.Fatalf("GetAction(%q) = %s in %s", qn, show(g), show(a))
	}
	if g := a.GetTable(qn); !sameI(g, ta) {
		t.Fatalf("GetTable(%q) = %s in %s", qn, show(g), show(a))
	}
}

func TestC13(t *testing.T) {
	largeC13(t)
	check(t, "binary", 2500, func(t *rapid.T) {
		a := gAbiDef(t, func(n string) string { return gString(t, n, 300) })
		want := abiWire(a, true)
		stats.Case("binary form", len(want) > 20, hexs(want))
		for i, v := range []interface{}{a, &a} {
			b, err := enc(v)
			if err != nil || !bytes.Equal(b, want) {
				t.Fatalf("form %d of %s\npacks to %s, err %v\nwant %s", i, show(a), hexs(b), err, hexs(want))
			}
		}
		var got chain.Abi
		left, err := dec(want, &got)
		if err != nil || left != 0 || !sameI(got, a) {
			t.Fatalf("%s\nunpacks to %s, err %v\nwant %s", hexs(want), show(got), err, show(a))
		}
		old := abiWire(a, false)
		a2 := a
		a2.Variants = nil
		got = chain.Abi{}
		if rapid.Bool().Draw(t, "used") {
			got.Variants = []chain.AbiVariant{{Name: "old"}}
		}
		left, err = dec(old, &got)
		stats.Case("binary form without variants", len(old) > 20, hexs(old))
		if err != nil || left != 0 || !sameI(got, a2) {
			t.Fatalf("%s (no variants)\nunpacks to %s, err %v\nwant %s", hexs(old), show(got), err, show(a2))
		}
	})
	check(t, "json", 2500, func(t *rapid.T) {
		a := gAbiDef(t, func(n string) string { return gValidString(t, n) })
		text := abiJSON(a)
		stats.Case("JSON form", len(text) > 200, text)
		b, err := json.Marshal(a)
		if err != nil {
			t.Fatalf("%s: %v", show(a), err)
		}
		if !jsonSame(string(b), text) {
			t.Fatalf("%s\nis written as %s\nwant %s", show(a), b, text)
		}
		for i, in := range []string{string(b), text} {
			var got chain.Abi
			if err := json.Unmarshal([]byte(in), &got); err != nil || !sameI(got, a) {
				t.Fatalf("JSON %d: %s\nis read as %s, err %v\nwant %s", i, in, show(got), err, show(a))
			}
		}
	})
	check(t, "lookup", 3000, func(t *rapid.T) {
		names := []string{"", "a", "b", "A", "a ", "ab", "transfer", "a\x00", "é"}
		gs := func(n string) string { return names[rapid.IntRange(0, len(names)-1).Draw(t, n)] }
		var a chain.Abi
		nm := func() chain.Name { return chain.Name(pick(t, "n", uint64(0), 1, 2, 1<<63, 16, 32)) }
		for i, k := 0, rapid.IntRange(0, 6).Draw(t, "k"); i < k; i++ {
			id := fmt.Sprint(i)
			a.Types = append(a.Types, chain.AbiType{NewTypeName: gs("t"), Type: id})
			a.Structs = append(a.Structs, chain.AbiStruct{Name: gs("s"), Base: id})
			a.Variants = append(a.Variants, chain.AbiVariant{Name: gs("v"), Types: []string{id}})
			a.Actions = append(a.Actions, chain.AbiAction{Name: nm(), Type: id})
			a.Tables = append(a.Tables, chain.AbiTable{Name: nm(), Type: id})
		}
		q, qn := gs("q"), nm()
		stats.Case("lookup", len(a.Types) > 1, fmt.Sprint(a, q, qn))
		lookups(t, a, q, qn)
		if len(a.Types) == 0 {
			return
		}
		// and again after changes to the same definition, in the same memory
		for i, k := 0, rapid.IntRange(0, 3).Draw(t, "edits"); i < k; i++ {
			x, y := rapid.IntRange(0, len(a.Types)-1).Draw(t, "x"), rapid.IntRange(0, len(a.Types)-1).Draw(t, "y")
			switch rapid.IntRange(0, 2).Draw(t, "edit") {
			case 0:
				a.Types[x], a.Types[y] = a.Types[y], a.Types[x]
				a.Structs[x], a.Structs[y] = a.Structs[y], a.Structs[x]
				a.Variants[x], a.Variants[y] = a.Variants[y], a.Variants[x]
				a.Actions[x], a.Actions[y] = a.Actions[y], a.Actions[x]
				a.Tables[x], a.Tables[y] = a.Tables[y], a.Tables[x]
			case 1:
				a.Types[x].NewTypeName, a.Structs[x].Name, a.Variants[x].Name = gs("t"), gs("s"), gs("v")
				a.Actions[x].Name, a.Tables[x].Name = nm(), nm()
			default:
				id := fmt.Sprint("new", i)
				a.Types[x].Type, a.Structs[x].Base, a.Variants[x].Types, a.Actions[x].Type, a.Tables[x].Type = id, id, []string{id}, id, id
			}
			stats.Case("lookup after edits", len(a.Types) > 1, fmt.Sprint(a, q, qn))
			lookups(t, a, q, qn)
		}
	})
}
