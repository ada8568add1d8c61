package props

import (
	"bytes"
	"reflect"
	"testing"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
	"pgregory.net/rapid"

	"verif/ref"
)

// codecRoutes checks that every way of encoding and decoding v agrees with wire.
func codecRoutes(t *rapid.T, cv CV, tail []byte) {
	cv.V = roomy(t, cv.V)
	expect := func(route string, got []byte, err error, want []byte) {
		if err != nil {
			t.Fatalf("%s of %s %s failed: %v", route, cv.Name, show(cv.V), err)
		}
		if !bytes.Equal(got, want) {
			t.Fatalf("%s of %s %s gave\n%s, the EOSIO form is\n%s", route, cv.Name, show(cv.V), hexs(got), hexs(want))
		}
	}
	b, err := enc(cv.V)
	expect("Encode", b, err, cv.Wire)
	b, err = enc(ptrTo(cv.V))
	expect("Encode of a pointer", b, err, cv.Wire)
	b, err = plainEnc(cv.V)
	expect("plain Encode", b, err, cv.Wire)
	b, err = plainEnc(ptrTo(cv.V))
	expect("plain Encode of a pointer", b, err, cv.Wire)
	if m, ok := ptrTo(cv.V).(abi.Marshaler); ok {
		var buf bytes.Buffer
		err = m.MarshalABI(chain.NewEncoder(&buf))
		expect("MarshalABI", buf.Bytes(), err, cv.Wire)
	}
	// nested in slices, of values and of pointers
	n := rapid.IntRange(0, 3).Draw(t, "n")
	rt := reflect.TypeOf(cv.V)
	sv := reflect.MakeSlice(reflect.SliceOf(rt), n, n)
	pv := reflect.MakeSlice(reflect.SliceOf(reflect.PtrTo(rt)), n, n)
	want := []byte{byte(n)}
	for i := 0; i < n; i++ {
		sv.Index(i).Set(reflect.ValueOf(cv.V))
		pv.Index(i).Set(reflect.ValueOf(ptrTo(cv.V)))
		want = append(want, cv.Wire...)
	}
	if rt.Kind() != reflect.Uint8 {
		b, err = enc(sv.Interface())
		expect("Encode of a slice", b, err, want)
		b, err = plainEnc(sv.Interface())
		expect("plain Encode of a slice", b, err, want)
	}
	b, err = enc(pv.Interface())
	expect("Encode of a slice of pointers", b, err, want)

	back := func(route string, p reflect.Value, left int, err error, want interface{}) {
		if err != nil || left != len(tail) || !sameI(p.Elem().Interface(), want) {
			t.Fatalf("%s of %s wire %s gave\n%s, err %v, %d bytes left; want\n%s, %d bytes left", route, cv.Name, hexs(cv.Wire), show(p.Elem().Interface()), err, left, show(want), len(tail))
		}
	}
	in := ref.Cat(cv.Wire, tail)
	p := newPtr(cv.V)
	left, err := dec(in, p.Interface())
	back("Decode", p, left, err, cv.V)
	p = newPtr(cv.V)
	left, err = plainDec(in, p.Interface())
	back("plain Decode", p, left, err, cv.V)
	if _, ok := p.Interface().(abi.Unmarshaler); ok {
		p = newPtr(cv.V)
		r := bytes.NewReader(in)
		err = p.Interface().(abi.Unmarshaler).UnmarshalABI(chain.NewDecoder(r))
		back("UnmarshalABI", p, r.Len(), err, cv.V)
	}
	in = ref.Cat(want, tail)
	p = reflect.New(sv.Type())
	left, err = dec(in, p.Interface())
	back("Decode of a slice", p, left, err, sv.Interface())
	p = reflect.New(pv.Type())
	left, err = plainDec(in, p.Interface())
	back("plain Decode of a slice of pointers", p, left, err, pv.Interface())
}

func TestC02(t *testing.T) {
	largeC02(t)
	check(t, "in place", 1500, func(t *rapid.T) {
		inPlace(t, "bytes of a changed value", gSmallCV(t, scalarGens, 3000).V, encText)
	})
	check(t, "unknown key types", 600, func(t *rapid.T) {
		kt := byte(rapid.IntRange(3, 255).Draw(t, "type"))
		in := append([]byte{kt}, gFill(t, "data", pick(t, "n", 0, 1, 33, 34, 65, 66, 200))...)
		stats.Case("key of no known type", true, hexs(in))
		for _, p := range []interface{}{&chain.PublicKey{}, &chain.Signature{}, &chain.PublicKey{Type: chain.R1, Data: make([]byte, 33)}, &chain.Signature{Type: chain.R1, Data: make([]byte, 65)},
			&struct{ K chain.PublicKey }{}, &struct{ S *chain.Signature }{}, &[1]chain.PublicKey{}, &[1]*chain.Signature{}} {
			for how, d := range map[string]func([]byte, interface{}) (int, error){"chain": dec, "plain": plainDec} {
				if _, err := d(in, p); err == nil {
					t.Fatalf("%T decodes from %s (%s decoder) as %s", p, hexs(in), how, show(p))
				}
			}
		}
		for _, name := range []string{"public_key", "signature"} {
			if v, err := (chain.Abi{}).Decode(bytes.NewReader(in), name); err == nil {
				t.Fatalf("%s decodes from %s as %s", name, hexs(in), show(v))
			}
		}
	})
	per := 1200
	for _, g := range scalarGens {
		g := g
		check(t, g.name, per, func(t *rapid.T) {
			cv := g.gen(t)
			cv.Name = g.name
			stats.Case(cv.Name, cv.Interest, show(cv.V))
			codecRoutes(t, cv, gFill(t, "tail", rapid.IntRange(0, 3).Draw(t, "ntail")))
		})
	}
}

func TestC03(t *testing.T) {
	largeC03(t)
	check(t, "in place", 1500, func(t *rapid.T) {
		inPlace(t, "bytes of a changed value", gSmallCV(t, txGens, 3000).V, encText)
		a, _, _ := gAction(t)
		inPlace(t, "digest of a changed action", a, func(p interface{}) string { return p.(*chain.Action).Digest().String() })
	})
	for _, g := range txGens {
		g := g
		n := 1500
		if g.name == "Transaction" || g.name == "Action" {
			n = 3000
		}
		check(t, g.name, n, func(t *rapid.T) {
			cv := g.gen(t)
			cv.Name = g.name
			stats.Case(cv.Name, cv.Interest, show(cv.V))
			codecRoutes(t, cv, gFill(t, "tail", rapid.IntRange(0, 3).Draw(t, "ntail")))
		})
	}
	check(t, "digest", 3000, func(t *rapid.T) {
		a, wire, _ := gAction(t)
		a = roomy(t, a).(chain.Action)
		stats.Case("action digest", true, show(a))
		want := ref.SHA256(wire)
		if got := a.Digest(); got != chain.Checksum256(want) {
			t.Fatalf("digest of %s is %s, SHA-256 of its packed form is %x", show(a), got, want)
		}
		if got := (&a).Digest(); got != chain.Checksum256(want) {
			t.Fatalf("second digest differs")
		}
		n := chain.NewAction(a.Account, a.Name, a.Authorization, a.Data)
		if n.Digest() != chain.Checksum256(want) || !sameI(*n, a) {
			t.Fatalf("NewAction(%s) gives %s", show(a), show(*n))
		}
		// another action shares the digest only if it packs to the same bytes
		b, bw := mutateAction(t, a)
		if (b.Digest() == a.Digest()) != bytes.Equal(bw, wire) {
			t.Fatalf("%s and %s: equal digests %v, equal bytes %v", show(a), show(b), b.Digest() == a.Digest(), bytes.Equal(bw, wire))
		}
	})
}

// mutateAction changes one part of an action.
func mutateAction(t *rapid.T, a chain.Action) (chain.Action, []byte) {
	b := a
	b.Authorization = append([]chain.PermissionLevel{}, a.Authorization...)
	b.Data = append(chain.Bytes{}, a.Data...)
	switch rapid.IntRange(0, 6).Draw(t, "mut") {
	case 0:
		b.Account ^= chain.Name(1) << rapid.IntRange(0, 63).Draw(t, "bit")
	case 1:
		b.Name ^= chain.Name(1) << rapid.IntRange(0, 63).Draw(t, "bit")
	case 2:
		if n := len(b.Authorization); n > 0 {
			b.Authorization[n-1].Permission ^= chain.Name(1) << rapid.IntRange(0, 63).Draw(t, "bit")
		}
	case 3:
		b.Authorization = append(b.Authorization, chain.PermissionLevel{Actor: gName(t, "a2")})
	case 4:
		b.Data = append(b.Data, 0)
	case 5:
		if n := len(b.Data); n > 0 {
			b.Data[rapid.IntRange(0, n-1).Draw(t, "at")] ^= 1
		}
	}
	w := &ref.Wire{}
	w.U64(uint64(b.Account))
	w.U64(uint64(b.Name))
	w.Varuint(uint32(len(b.Authorization)))
	for _, p := range b.Authorization {
		w.U64(uint64(p.Actor))
		w.U64(uint64(p.Permission))
	}
	w.Bytes(b.Data)
	return b, w.B
}
