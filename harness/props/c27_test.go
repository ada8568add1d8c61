package props

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"
	"unsafe"

	"github.com/greymass/go-eosio/pkg/chain"
	"pgregory.net/rapid"

	"verif/ref"
)

// C27: types the codec has no representation for, and targets it can't decode into.

type unsup struct {
	rt   reflect.Type
	val  reflect.Value
	wire []byte
	how  string
	enc  bool // an encoder reaches the unsupported part
}

func gUnsupported(t *rapid.T) unsup {
	vals := []interface{}{
		make(chan int), make(<-chan uint8), func() {}, func(int) string { return "" },
		complex64(1), complex128(2i), complex64(0), uintptr(7), uintptr(0), unsafe.Pointer(nil),
		(chan int)(nil), (func())(nil),
	}
	v := reflect.ValueOf(vals[rapid.IntRange(0, len(vals)-1).Draw(t, "bad")])
	u := unsup{rt: v.Type(), val: v, how: v.Type().String(), enc: true}
	u.wire = gFill(t, "junk", rapid.IntRange(0, 20).Draw(t, "njunk"))
	if chance(t, "interface", 6) { // an interface can't be decoded into
		v := reflect.New(reflect.TypeOf((*interface{})(nil)).Elem()).Elem()
		v.Set(u.val)
		u.rt, u.val, u.how = v.Type(), v, "interface{}("+u.how+")"
	}
	return u
}

func (u unsup) wrap(t *rapid.T) unsup {
	leaf := func() (reflect.Type, reflect.Value, []byte) {
		g := gLeafType(t)
		x := &vgen{t: t, budget: 100}
		v, w := x.value(g, 5)
		return g.RT, v, w.flat()
	}
	addr := func(v reflect.Value) reflect.Value {
		p := reflect.New(u.rt)
		p.Elem().Set(v)
		return p
	}
	switch k := rapid.IntRange(0, 7).Draw(t, "wrap"); k {
	case 0, 1: // struct
		var fs []reflect.StructField
		var vs []reflect.Value
		var w []byte
		before, after := rapid.IntRange(0, 3).Draw(t, "before"), rapid.IntRange(0, 2).Draw(t, "after")
		for i := 0; i < before+1+after; i++ {
			f := reflect.StructField{Name: fmt.Sprintf("F%d", i)}
			var v reflect.Value
			var b []byte
			if i == before {
				f.Type, v, b = u.rt, u.val, u.wire
				if k == 1 { // optional and present
					f.Type, v, b = reflect.PtrTo(u.rt), addr(u.val), append([]byte{1}, u.wire...)
					f.Tag = `eosio:"optional"`
				}
			} else {
				f.Type, v, b = leaf()
			}
			fs, vs, w = append(fs, f), append(vs, v), append(w, b...)
		}
		rt := reflect.StructOf(fs)
		v := reflect.New(rt).Elem()
		for i := range vs {
			v.Field(i).Set(vs[i])
		}
		u.rt, u.val, u.wire, u.how = rt, v, w, "struct("+u.how+")"
	case 2: // slice
		n := pick(t, "n", 1, 1, 2, 5, 17, 100)
		rt := reflect.SliceOf(u.rt)
		v := reflect.MakeSlice(rt, n, n)
		for i := 0; i < n; i++ {
			v.Index(i).Set(u.val)
		}
		u.rt, u.val, u.wire, u.how = rt, v, append([]byte{byte(n)}, u.wire...), "[]"+u.how
	case 3: // array
		n := pick(t, "n", 1, 2, 3, 8, 33)
		rt := reflect.ArrayOf(n, u.rt)
		v := reflect.New(rt).Elem()
		for i := 0; i < n; i++ {
			v.Index(i).Set(u.val)
		}
		u.rt, u.val, u.how = rt, v, fmt.Sprintf("[%d]", n)+u.how
	case 4: // map value
		rt := reflect.MapOf(reflect.TypeOf(uint16(0)), u.rt)
		v := reflect.MakeMap(rt)
		v.SetMapIndex(reflect.ValueOf(uint16(258)), u.val)
		u.rt, u.val, u.wire, u.how = rt, v, append([]byte{1, 2, 1}, u.wire...), "map of "+u.how
	case 5: // map key
		if !u.rt.Comparable() || u.rt.Kind() == reflect.Interface || !u.val.Comparable() {
			return u.wrap(t)
		}
		rt := reflect.MapOf(u.rt, reflect.TypeOf(uint8(0)))
		v := reflect.MakeMap(rt)
		v.SetMapIndex(u.val, reflect.ValueOf(uint8(3)))
		u.rt, u.val, u.wire, u.how = rt, v, append([]byte{1}, u.wire...), "map by "+u.how
	case 6: // pointer
		v := addr(u.val)
		u.rt, u.val, u.how = v.Type(), v, "*"+u.how
	case 7: // variant alternative, which has no generic encoding
		lt, _, _ := leaf()
		alt := rapid.IntRange(0, 1).Draw(t, "alt")
		fs := []reflect.StructField{{Name: "A", Type: reflect.PtrTo(lt)}, {Name: "B", Type: reflect.PtrTo(lt)}}
		fs[alt].Type = reflect.PtrTo(u.rt)
		vt := reflect.StructOf(fs)
		rt := reflect.StructOf([]reflect.StructField{{Name: "V", Type: vt, Tag: `eosio:"variant"`}})
		u.rt, u.val, u.wire, u.how, u.enc = rt, reflect.New(rt).Elem(), append([]byte{byte(alt)}, u.wire...), "variant("+u.how+")", false
	}
	return u
}

func TestC27(t *testing.T) {
	expect := func(t *rapid.T, what string, f func() error) {
		var err error
		if msg, bad := noPanic(func() { err = f() }); bad {
			t.Fatalf("%s panics: %s", what, msg)
		}
		if err == nil {
			t.Fatalf("%s succeeds", what)
		}
	}
	check(t, "types", 6000, func(t *rapid.T) {
		u := gUnsupported(t)
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "nest"); i < n; i++ {
			u = u.wrap(t)
		}
		in := append(append([]byte{}, u.wire...), make([]byte, 40)...)
		stats.Case("unsupported type", true, u.how+" "+u.rt.String())
		Journal("unsupported type %s = %s", u.how, u.rt)
		if u.enc {
			expect(t, "encoding "+u.how, func() error { _, err := enc(u.val.Interface()); return err })
			expect(t, "plain encoding of "+u.how, func() error { _, err := plainEnc(u.val.Interface()); return err })
		}
		p := reflect.New(u.rt)
		expect(t, fmt.Sprintf("decoding %s from %x", u.how, in), func() error { _, err := dec(in, p.Interface()); return err })
		p = reflect.New(u.rt)
		expect(t, fmt.Sprintf("plain decoding of %s from %x", u.how, in), func() error { _, err := plainDec(in, p.Interface()); return err })
	})
	check(t, "targets", 4000, func(t *rapid.T) {
		// not a pointer, or a nil one
		g := gStructType(t, 2, gOpts{maps: true}, true)
		if rapid.Bool().Draw(t, "any") {
			g = gType(t, 2, gOpts{maps: true})
		}
		x := &vgen{t: t, budget: 300}
		v, w := x.value(g, 0)
		in := append(w.flat(), make([]byte, 20)...)
		stats.Case("target that is not a pointer", true, keyOf(g, in))
		if g.RT.Kind() != reflect.Ptr {
			expect(t, fmt.Sprintf("decoding into a %s", g), func() error { _, err := dec(in, v.Interface()); return err })
			expect(t, fmt.Sprintf("decoding a variant into a %s", g), func() error {
				return chain.NewDecoder(bytes.NewReader(in)).DecodeVariant(v.Interface())
			})
		}
		if g.K == kStruct && g.RT.Name() == "" {
			null := reflect.Zero(reflect.PtrTo(g.RT)).Interface()
			expect(t, fmt.Sprintf("decoding into a nil *%s", g), func() error { _, err := dec(in, null); return err })
			expect(t, fmt.Sprintf("decoding a variant into a nil *%s", g), func() error {
				return chain.NewDecoder(bytes.NewReader(in)).DecodeVariant(null)
			})
		}
	})
	check(t, "interfaces", 1000, func(t *rapid.T) {
		// an interface, alone or somewhere inside, that is empty or points to itself
		in := gFill(t, "in", 40)
		in[0] = 2
		type holder struct {
			A uint8
			X interface{}
		}
		var v interface{}
		h := holder{}
		l := []interface{}{nil, nil}
		m := map[uint8]interface{}{}
		a := [2]interface{}{}
		self := rapid.Bool().Draw(t, "self")
		if self {
			v, h.X, l[0], l[1], a[0] = &v, &h.X, &l[0], &l[1], &a[0]
		}
		what := pick(t, "target", "interface", "itself", "struct", "list", "map", "array")
		stats.Case("interface", true, fmt.Sprint(what, self, in[:3]))
		Journal("decoding into an interface: %s, pointing to itself: %v", what, self)
		targets := map[string]interface{}{"interface": &v, "itself": v, "struct": &h, "list": &l, "map": &m, "array": &a}
		if what == "itself" && !self {
			return
		}
		for _, d := range []func([]byte, interface{}) (int, error){dec, plainDec} {
			expect(t, fmt.Sprintf("decoding into an interface (%s, pointing to itself: %v)", what, self), func() error { _, err := d(in, targets[what]); return err })
		}
	})
	check(t, "variants", 3000, func(t *rapid.T) {
		// alternatives have to be pointers, and the variant a struct
		g := gElemType(t, 1, gOpts{maps: true})
		if g.RT.Kind() == reflect.Ptr {
			return
		}
		x := &vgen{t: t, budget: 300}
		_, w := x.value(g, 1)
		n := rapid.IntRange(1, 4).Draw(t, "n")
		alt := rapid.IntRange(0, n-1).Draw(t, "alt")
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			ft := reflect.PtrTo(g.RT)
			if i == alt || rapid.Bool().Draw(t, "plain") {
				ft = g.RT
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: ft})
		}
		vt := reflect.StructOf(fs)
		kind := "struct"
		switch rapid.IntRange(0, 3).Draw(t, "kind") {
		case 0:
			vt, kind = reflect.SliceOf(reflect.PtrTo(g.RT)), "slice"
		case 1:
			vt, kind = reflect.ArrayOf(n, reflect.PtrTo(g.RT)), "array"
		case 2:
			vt, kind = reflect.TypeOf(uint32(0)), "integer"
		}
		in := append(append([]byte{byte(alt)}, w.flat()...), make([]byte, 20)...)
		stats.Case("malformed variant", true, fmt.Sprint(kind, vt, alt, hexs(in)))
		p := reflect.New(vt)
		expect(t, fmt.Sprintf("decoding alternative %d of %s", alt, vt), func() error {
			return chain.NewDecoder(bytes.NewReader(in)).DecodeVariant(p.Interface())
		})
		st := reflect.StructOf([]reflect.StructField{{Name: "V", Type: vt, Tag: `eosio:"variant"`}})
		q := reflect.New(st)
		expect(t, fmt.Sprintf("decoding alternative %d of %s in a struct", alt, vt), func() error { _, err := dec(in, q.Interface()); return err })
	})
	check(t, "variants with other alternatives", 1500, func(t *rapid.T) {
		// an alternative that is a pointer decodes or fails, but never crashes, next to ones that are not
		g := gElemType(t, 1, gOpts{maps: true})
		x := &vgen{t: t, budget: 300}
		v, w := x.value(g, 1)
		other := gElemType(t, 1, gOpts{maps: true})
		alt := rapid.IntRange(0, 1).Draw(t, "alt")
		fs := []reflect.StructField{{Name: "A", Type: other.RT}, {Name: "B", Type: other.RT}}
		fs[alt].Type = reflect.PtrTo(g.RT)
		vt := reflect.StructOf(fs)
		in := ref.Cat([]byte{byte(alt)}, w.flat())
		stats.Case("mixed variant", true, fmt.Sprint(vt, alt, hexs(in)))
		p := reflect.New(vt)
		var err error
		if msg, bad := noPanic(func() { err = chain.NewDecoder(bytes.NewReader(in)).DecodeVariant(p.Interface()) }); bad {
			t.Fatalf("decoding alternative %d of %s panics: %s", alt, vt, msg)
		}
		if err == nil && (p.Elem().Field(alt).IsNil() || !same(p.Elem().Field(alt).Elem(), v)) {
			t.Fatalf("alternative %d of %s from %s is %s, want %s", alt, vt, hexs(in), show(p.Elem().Interface()), show(v.Interface()))
		}
	})
}
