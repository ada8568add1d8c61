package props

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/greymass/go-eosio/pkg/chain"
	"pgregory.net/rapid"

	"verif/ref"
)

// ABI definitions that change between uses.

// redefined: one variable, and as far as it fits the same memory, holds two
// definitions in turn.
func redefined(t *rapid.T) {
	c := []*aCase{gACase(t, schemaOpts{}, false), gACase(t, schemaOpts{}, false)}
	if rapid.Bool().Draw(t, "same name") {
		// the second one's type under the name of the first one's
		c[1] = gAValue(t, c[1].s, AE{def: c[1].s.defs[rapid.IntRange(0, len(c[1].s.defs)-1).Draw(t, "def")]}, false)
	}
	var a chain.Abi
	load := func(b *chain.Abi, other *chain.Abi) {
		ty := append([]chain.AbiType{}, b.Types...)
		for len(ty) < len(other.Types) {
			ty = append(ty, chain.AbiType{NewTypeName: fmt.Sprint("unused type ", len(ty)), Type: "bool"})
		}
		st := append([]chain.AbiStruct{}, b.Structs...)
		for len(st) < len(other.Structs) {
			st = append(st, chain.AbiStruct{Name: fmt.Sprint("unused struct ", len(st))})
		}
		va := append([]chain.AbiVariant{}, b.Variants...)
		for len(va) < len(other.Variants) {
			va = append(va, chain.AbiVariant{Name: fmt.Sprint("unused variant ", len(va))})
		}
		a.Version, a.Actions = b.Version, b.Actions
		a.Types = append(a.Types[:0], ty...)
		a.Structs = append(a.Structs[:0], st...)
		a.Variants = append(a.Variants[:0], va...)
	}
	for i := 0; i < 3; i++ {
		x := *c[i%2]
		load(x.s.abi, c[1-i%2].s.abi)
		s := *x.s
		s.abi = &a
		x.s = &s
		abiCase(t, &x, "one variable for two ABIs")
	}
}

// edited: a used definition is changed in place; it must then do what a copy
// that was never used does.
func edited(t *rapid.T) {
	c := gACase(t, schemaOpts{}, false)
	a := c.s.abi
	nm := c.e.name()
	if _, err := abiEnc(a, nm, c.in); err != nil {
		t.Fatalf("%s\ndoes not encode: %v", c, err)
	}
	abiDec(a, nm, c.wire)
	for _, x := range a.Actions {
		a.DecodeAction(bytes.NewReader(c.wire), x.Name)
		a.EncodeAction(&bytes.Buffer{}, x.Name, c.in)
	}
	var what string
	n := func(l int, label string) int { return rapid.IntRange(0, l-1).Draw(t, label) }
	for i, k := 0, rapid.IntRange(1, 3).Draw(t, "edits"); i < k; i++ {
		typ := pick(t, "type", "uint8", "uint16", "int16", "string", "bytes", "bool", "uint8[]", "uint8?", "name", "no such type")
		var fields []*chain.AbiField
		for i := range a.Structs {
			for j := range a.Structs[i].Fields {
				fields = append(fields, &a.Structs[i].Fields[j])
			}
		}
		switch how := pick(t, "edit", "field type", "field type", "field name", "field order", "alias", "variant", "variant order", "action", "names"); {
		case how == "field type" && len(fields) > 0:
			fields[n(len(fields), "f")].Type = typ
		case how == "field name" && len(fields) > 0:
			fields[n(len(fields), "f")].Name = "renamed"
		case how == "field order" && len(a.Structs) > 0:
			if f := a.Structs[n(len(a.Structs), "s")].Fields; len(f) > 1 {
				x, y := n(len(f), "x"), n(len(f), "y")
				f[x], f[y] = f[y], f[x]
			}
		case how == "alias" && len(a.Types) > 0:
			a.Types[n(len(a.Types), "a")].Type = typ
		case how == "variant" && len(a.Variants) > 0:
			if v := a.Variants[n(len(a.Variants), "v")].Types; len(v) > 0 {
				v[n(len(v), "x")] = typ
			}
		case how == "variant order" && len(a.Variants) > 0:
			if v := a.Variants[n(len(a.Variants), "v")].Types; len(v) > 1 {
				x, y := n(len(v), "x"), n(len(v), "y")
				v[x], v[y] = v[y], v[x]
			}
		case how == "action" && len(a.Actions) > 0:
			a.Actions[n(len(a.Actions), "a")].Type = typ
		case how == "names" && len(a.Structs) > 1:
			x, y := n(len(a.Structs), "x"), n(len(a.Structs), "y")
			if a.Structs[x].Base == "" && a.Structs[y].Base == "" {
				a.Structs[x].Fields, a.Structs[y].Fields = a.Structs[y].Fields, a.Structs[x].Fields
			}
		default:
			continue
		}
		what += " " + typ
	}
	fresh := deepCopy(reflect.ValueOf(*a), false, nil).Interface().(chain.Abi)
	stats.Case("ABI changed after use", what != "", c.key()+show(fresh))
	b1, e1 := abiEnc(a, nm, c.in)
	b2, e2 := abiEnc(&fresh, nm, c.in)
	if (e1 == nil) != (e2 == nil) || e1 == nil && !bytes.Equal(b1, b2) {
		t.Fatalf("%s\nwith the definition changed to %s\nencodes to %s, err %v; through a fresh copy %s, err %v", c, show(fresh), hexs(b1), e1, hexs(b2), e2)
	}
	v1, l1, e1 := abiDec(a, nm, c.wire)
	v2, l2, e2 := abiDec(&fresh, nm, c.wire)
	if (e1 == nil) != (e2 == nil) || e1 == nil && (l1 != l2 || !sameI(v1, v2)) {
		t.Fatalf("%s\nwith the definition changed to %s\nwire %s decodes to %s, err %v; through a fresh copy %s, err %v", c, show(fresh), hexs(c.wire), show(v1), e1, show(v2), e2)
	}
	if len(a.Actions) > 0 {
		act := a.Actions[n(len(a.Actions), "act")].Name
		v1, e1 := a.DecodeAction(bytes.NewReader(c.wire), act)
		v2, e2 := fresh.DecodeAction(bytes.NewReader(c.wire), act)
		if (e1 == nil) != (e2 == nil) || e1 == nil && !sameI(v1, v2) {
			t.Fatalf("%s\nwith the definition changed to %s\naction %s decodes to %s, err %v; through a fresh copy %s, err %v", c, show(fresh), act, show(v1), e1, show(v2), e2)
		}
		var w1, w2 bytes.Buffer
		e1, e2 = a.EncodeAction(&w1, act, c.in), fresh.EncodeAction(&w2, act, c.in)
		if (e1 == nil) != (e2 == nil) || e1 == nil && !bytes.Equal(w1.Bytes(), w2.Bytes()) {
			t.Fatalf("%s\nwith the definition changed to %s\naction %s encodes to %s, err %v; through a fresh copy %s, err %v", c, show(fresh), act, hexs(w1.Bytes()), e1, hexs(w2.Bytes()), e2)
		}
	}
}

// tweak changes parts of a value in place, in the memory it already has.
func tweak(t *rapid.T, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			tweak(t, v.Elem())
		}
	case reflect.Slice, reflect.Array:
		if v.Len() > 0 {
			tweak(t, v.Index(rapid.IntRange(0, v.Len()-1).Draw(t, "i")))
			tweak(t, v.Index(pick(t, "end", 0, v.Len()-1)))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.NumField() == 1 || rapid.Bool().Draw(t, "field") {
				tweak(t, v.Field(i))
			}
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "x")
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 1<<rapid.IntRange(0, v.Type().Bits()-1).Draw(t, "bit"))
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 1)
		}
	}
}

// inPlace: an operation on a value that was used before and then changed in
// place gives what it gives for a copy that was never used.
func inPlace(t *rapid.T, label string, v interface{}, op func(p interface{}) string) {
	p := reflect.New(reflect.TypeOf(v))
	p.Elem().Set(deepCopy(reflect.ValueOf(v), false, nil))
	was := op(p.Interface())
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "times"); i < n; i++ {
		tweak(t, p)
		fresh := deepCopy(p, false, nil)
		want := op(fresh.Interface())
		stats.Case(label, was != want, was+" "+want)
		if got := op(p.Interface()); got != want {
			t.Fatalf("%s after a change in place to %s: %q, for a fresh copy %q", label, show(p.Elem().Interface()), clip(got, 2000), clip(want, 2000))
		}
		if sub := reflect.New(p.Type().Elem()); true {
			sub.Elem().Set(p.Elem()) // the same memory behind another variable
			if got := op(sub.Interface()); got != want {
				t.Fatalf("%s of a copy of the variable %s: %q, want %q", label, show(p.Elem().Interface()), clip(got, 2000), clip(want, 2000))
			}
		}
	}
}

func encText(p interface{}) string {
	b, err := enc(p)
	if err != nil {
		return "error"
	}
	return ref.Hex(b)
}
