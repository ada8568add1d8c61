package props

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
	"pgregory.net/rapid"

	"verif/ref"
)

func (g *GT) has(k gKind) bool { return g.hasRec(k, 0) }

func (g *GT) hasRec(k gKind, depth int) bool {
	if g == nil || depth > 8 {
		return false
	}
	if g.K == k || g.Elem.hasRec(k, depth+1) || g.Key.hasRec(k, depth+1) {
		return true
	}
	for _, f := range g.Fields {
		if f.T.hasRec(k, depth+1) {
			return true
		}
	}
	return false
}

func keyOf(g *GT, b []byte) string { return g.String() + " = " + hexs(b) }

func TestC04(t *testing.T) {
	largeC04(t)
	check(t, "in place", 1500, func(t *rapid.T) {
		_, v, _, _ := gGoValue(t, 3, gOpts{})
		inPlace(t, "bytes of a changed value", v.Interface(), encText)
	})
	check(t, "roundtrip", 6000, func(t *rapid.T) {
		g, v, w, x := gGoValue(t, 3, gOpts{maps: true})
		if len(w.flat()) < 5000 && chance(t, "roomy", 4) {
			v = deepCopy(v, true, new([]reflect.Value))
		}
		stats.Case("encode and decode", x.interest && g.K != kLeaf, keyOf(g, w.flat()))
		routes := []struct {
			name string
			f    func() ([]byte, error)
		}{
			{"Encode", func() ([]byte, error) { return enc(v.Interface()) }},
			{"Encode of a pointer", func() ([]byte, error) { return enc(v.Addr().Interface()) }},
			{"plain Encode", func() ([]byte, error) { return plainEnc(v.Interface()) }},
			{"EncodeValue", func() ([]byte, error) {
				if g.K == kLeaf {
					return enc(v.Interface())
				}
				var b bytes.Buffer
				err := chain.NewEncoder(&b).EncodeValue(v)
				return b.Bytes(), err
			}},
		}
		for _, r := range routes {
			b, err := r.f()
			if err != nil {
				t.Fatalf("%s of %s\n%s\nfailed: %v", r.name, g, show(v.Interface()), err)
			}
			if rest, ok := w.match(b); !ok || len(rest) != 0 {
				t.Fatalf("%s of %s\n%s\ngave %s\nwant %s", r.name, g, show(v.Interface()), hexs(b), hexs(w.flat()))
			}
		}
		tail := gFill(t, "tail", rapid.IntRange(0, 3).Draw(t, "ntail"))
		in := ref.Cat(w.flat(), tail)
		decodeValue := func(in []byte, v interface{}) (int, error) {
			if g.K == kLeaf {
				return dec(in, v)
			}
			r := bytes.NewReader(in)
			err := chain.NewDecoder(r).DecodeValue(reflect.ValueOf(v).Elem())
			return r.Len(), err
		}
		for i, d := range []func([]byte, interface{}) (int, error){dec, plainDec, decodeValue} {
			p := reflect.New(g.RT)
			left, err := d(in, p.Interface())
			if err != nil || left != len(tail) || !same(p.Elem(), v) {
				t.Fatalf("decoder %d: %s from %s\ngave %s, err %v, %d bytes left\nwant %s, %d bytes left", i, g, hexs(in), show(p.Elem().Interface()), err, left, show(v.Interface()), len(tail))
			}
		}
		// into a pointer that is still nil
		pp := reflect.New(reflect.PtrTo(g.RT))
		left, err := dec(in, pp.Interface())
		if g.K != kPtr && (err != nil || left != len(tail) || pp.Elem().IsNil() || !same(pp.Elem().Elem(), v)) {
			t.Fatalf("decoding %s into a nil pointer from %s: err %v, %d left", g, hexs(in), err, left)
		}
	})
	check(t, "long lists", 250, func(t *rapid.T) {
		// many different elements, far more than fit any initial allocation
		elem := gElemType(t, 2, gOpts{})
		if chance(t, "empty", 10) {
			elem = gtOf(pick(t, "emptyType", reflect.TypeOf(struct{}{}), reflect.TypeOf(Empty{}), reflect.TypeOf(&Empty{}), reflect.TypeOf([0]string{}), reflect.TypeOf([2]struct{}{})))
		}
		x := &vgen{t: t, budget: 600}
		var evs []reflect.Value
		var ews [][]byte
		most := 1
		for i := 0; i < 5; i++ {
			ev, ew := x.value(elem, 2)
			evs, ews = append(evs, ev), append(ews, ew.flat())
			if len(ews[i]) > most {
				most = len(ews[i])
			}
		}
		n := pick(t, "n", 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 4097, 16383, 16384, 16385, 40000)
		if n*most > 400000 {
			n = 400000 / most
		}
		if minSize(elem, 0) == 0 && n > 1000 {
			n = 1000 // longer runs of elements without data count as hostile
		}
		seed := rapid.Uint64().Draw(t, "order")
		rt := reflect.SliceOf(elem.RT)
		v := reflect.MakeSlice(rt, n, n)
		in := ref.W(func(y *ref.Wire) { y.Varuint(uint32(n)) })
		for i := 0; i < n; i++ {
			seed = seed*6364136223846793005 + 1442695040888963407
			k := int(seed>>33) % len(evs)
			v.Index(i).Set(evs[k])
			in = append(in, ews[k]...)
		}
		stats.Case("long lists", x.interest, fmt.Sprint(elem, n, seed))
		b, err := enc(v.Interface())
		if err != nil || !bytes.Equal(b, in) {
			t.Fatalf("list of %d %s: err %v, %d bytes, want %d", n, elem, err, len(b), len(in))
		}
		p := reflect.New(rt)
		left, err := dec(append(in, 1, 2, 3), p.Interface())
		if err != nil || left != 3 || !same(p.Elem(), v) {
			t.Fatalf("list of %d %s (%d bytes) decodes with err %v, %d left, %d elements", n, elem, len(in), err, left, p.Elem().Len())
		}
	})
	check(t, "large maps", 150, func(t *rapid.T) {
		n := pick(t, "n", 7, 8, 9, 64, 127, 128, 129, 255, 256, 1000, 1023, 1024, 1025, 3000)
		elem := gElemType(t, 1, gOpts{})
		x := &vgen{t: t, budget: 300}
		base := rapid.Uint32().Draw(t, "base") | 1
		rt := reflect.MapOf(reflect.TypeOf(uint32(0)), elem.RT)
		v := reflect.MakeMapWithSize(rt, n)
		in := ref.W(func(y *ref.Wire) { y.Varuint(uint32(n)) })
		var evs []reflect.Value
		var ews [][]byte
		for i := 0; i < 4; i++ {
			ev, ew := x.value(elem, 2)
			evs, ews = append(evs, ev), append(ews, ew.flat())
		}
		for i := 0; i < n; i++ {
			key := uint32(i) * base // odd, so all keys differ
			v.SetMapIndex(reflect.ValueOf(key), evs[i%4])
			in = append(in, byte(key), byte(key>>8), byte(key>>16), byte(key>>24))
			in = append(in, ews[i%4]...)
		}
		stats.Case("large maps", true, fmt.Sprint(elem, n, base))
		p := reflect.New(rt)
		left, err := dec(in, p.Interface())
		if err != nil || left != 0 || !same(p.Elem(), v) {
			t.Fatalf("map of %d %s decodes with err %v, %d left, %d entries", n, elem, err, left, p.Elem().Len())
		}
		b, err := enc(v.Interface())
		if err != nil || len(b) != len(in) {
			t.Fatalf("map of %d %s: err %v, %d bytes, want %d", n, elem, err, len(b), len(in))
		}
		q := reflect.New(rt)
		if left, err := dec(b, q.Interface()); err != nil || left != 0 || !same(q.Elem(), v) {
			t.Fatalf("map of %d %s does not come back: err %v, %d left, %d entries", n, elem, err, left, q.Elem().Len())
		}
	})
	check(t, "variant", 3000, func(t *rapid.T) {
		g, v, w, x := gGoValue(t, 3, gOpts{maps: true, variants: true})
		if !g.has(kVariant) {
			return
		}
		in := w.flat()
		stats.Case("variants", x.interest, keyOf(g, in))
		p := reflect.New(g.RT)
		left, err := dec(in, p.Interface())
		if err != nil || left != 0 || !same(p.Elem(), v) {
			t.Fatalf("%s from %s\ngave %s, err %v, %d left\nwant %s", g, hexs(in), show(p.Elem().Interface()), err, left, show(v.Interface()))
		}
	})
	check(t, "variant index", 2500, func(t *rapid.T) {
		vt := gVariantType(t, 2, gOpts{maps: true})
		n := len(vt.Fields)
		x := &vgen{t: t, budget: 1000}
		v, w := x.value(vt, 0)
		body := w.kids[1].flat()
		// called directly
		p := reflect.New(vt.RT)
		r := bytes.NewReader(ref.Cat(w.flat(), []byte{7}))
		err := chain.NewDecoder(r).DecodeVariant(p.Interface())
		if err != nil || r.Len() != 1 || !same(p.Elem(), v) {
			t.Fatalf("DecodeVariant of %s from %s: %s, err %v", vt, hexs(w.flat()), show(p.Elem().Interface()), err)
		}
		stats.Case("variant decoded directly", true, keyOf(vt, w.flat()))
		bad := pick(t, "bad", n, n+1, 255, 128, 127, n+128, n+256, 16384, n+1<<16, 1<<31, 1<<31-1, 1<<32-1)
		if bad >= n {
			in := append(ref.W(func(y *ref.Wire) { y.Varuint(uint32(bad)) }), body...)
			in = append(in, make([]byte, 40)...)
			st := reflect.StructOf([]reflect.StructField{
				{Name: "A", Type: reflect.TypeOf(uint8(0))},
				{Name: "V", Type: vt.RT, Tag: `eosio:"variant"`},
			})
			q := reflect.New(st)
			stats.Case("variant index out of range", true, fmt.Sprint(n, " ", keyOf(vt, in)))
			if _, err := dec(append([]byte{1}, in...), q.Interface()); err == nil {
				t.Fatalf("variant of %d alternatives accepted index %d: %s", n, bad, show(q.Elem().Interface()))
			}
			p := reflect.New(vt.RT)
			if err := chain.NewDecoder(bytes.NewReader(in)).DecodeVariant(p.Interface()); err == nil {
				t.Fatalf("variant of %d alternatives accepted index %d: %s", n, bad, show(p.Elem().Interface()))
			}
		}
	})
	check(t, "extension", 3000, func(t *rapid.T) {
		g := gStructType(t, 3, gOpts{maps: true, extensions: true}, true)
		x := &vgen{t: t, budget: 2000}
		v, w := x.value(g, 0)
		if len(x.extStarts) == 0 {
			return
		}
		b, err := enc(v.Interface())
		if err != nil {
			t.Fatalf("encode %s: %v", g, err)
		}
		if rest, ok := w.match(b); !ok || len(rest) != 0 {
			t.Fatalf("encode of %s\n%s\ngave %s\nwant %s", g, show(v.Interface()), hexs(b), hexs(w.flat()))
		}
		full := w.flat()
		p := reflect.New(g.RT)
		if left, err := dec(full, p.Interface()); err != nil || left != 0 || !same(p.Elem(), v) {
			t.Fatalf("%s from %s gave %s, err %v", g, hexs(full), show(p.Elem().Interface()), err)
		}
		first := len(g.Fields) - len(x.extStarts)
		for i, cut := range x.extStarts {
			want := reflect.New(g.RT).Elem()
			want.Set(v)
			for j := first + i; j < len(g.Fields); j++ {
				want.Field(j).Set(reflect.Zero(want.Field(j).Type()))
			}
			stats.Case("extensions absent", true, fmt.Sprint(i, " ", keyOf(g, full[:cut])))
			p := reflect.New(g.RT)
			left, err := dec(full[:cut], p.Interface())
			if err != nil || left != 0 || !same(p.Elem(), want) {
				t.Fatalf("%s without its last %d extensions, from %s\ngave %s, err %v\nwant %s", g, len(x.extStarts)-i, hexs(full[:cut]), show(p.Elem().Interface()), err, show(want.Interface()))
			}
		}
	})
	check(t, "nil", 4000, func(t *rapid.T) {
		var g *GT
		if rapid.Bool().Draw(t, "struct") {
			g = gStructType(t, 3, gOpts{maps: true}, true)
		} else {
			g = gType(t, 4, gOpts{maps: true})
		}
		if !g.has(kPtr) {
			return
		}
		x := &vgen{t: t, budget: 2000, nils: true}
		v, _ := x.value(g, 0)
		if !x.planted {
			return
		}
		stats.Case("nil where a value is required", true, g.String()+" = "+show(v.Interface()))
		for i, e := range []func(interface{}) ([]byte, error){enc, plainEnc} {
			var err error
			if msg, bad := noPanic(func() { _, err = e(v.Interface()) }); bad {
				t.Fatalf("encoder %d panics on %s\n%s: %s", i, g, show(v.Interface()), msg)
			}
			if err == nil {
				t.Fatalf("encoder %d accepts a nil that is not optional: %s\n%s", i, g, show(v.Interface()))
			}
		}
	})
	check(t, "nil pointers to leaves", 1500, func(t *rapid.T) {
		g := gLeafType(t)
		p := reflect.Zero(reflect.PtrTo(g.RT)).Interface()
		stats.Case("nil where a value is required", true, "nil *"+g.String())
		for i, e := range []func(interface{}) ([]byte, error){enc, plainEnc} {
			var err error
			if msg, bad := noPanic(func() { _, err = e(p) }); bad || err == nil {
				t.Fatalf("encoder %d on a nil *%s: err %v %s", i, g, err, msg)
			}
		}
		// decoding into something that is not a usable pointer is an error too
		var err error
		if msg, bad := noPanic(func() { _, err = dec(make([]byte, 200), reflect.New(g.RT).Elem().Interface()) }); bad || err == nil {
			t.Fatalf("decoding into a %s that is not a pointer: err %v %s", g, err, msg)
		}
	})
}

var _ = abi.NewDecoder

// ---- C05: decoding into used values ------------------------------------------

// again draws another value of the same type, sometimes with the same lengths.
func TestC05(t *testing.T) {
	largeC05(t)
	history := func(t *rapid.T, g *GT, label string) {
		p := reflect.New(g.RT)
		n := rapid.IntRange(2, 5).Draw(t, "history")
		hist := ""
		for i := 0; i < n; i++ {
			x := &vgen{t: t, budget: 1500}
			_, w := x.value(g, 0)
			in := w.flat()
			if len(x.extStarts) > 0 && rapid.Bool().Draw(t, "dropext") {
				in = in[:x.extStarts[rapid.IntRange(0, len(x.extStarts)-1).Draw(t, "ext")]]
			}
			if len(in) > 0 && chance(t, "fail", 5) {
				in = in[:rapid.IntRange(0, len(in)-1).Draw(t, "cut")] // this one may fail half way
			}
			if len(in) > 0 && chance(t, "alter", 5) { // or mean something else
				in = append([]byte{}, in...)
				at := 0
				if rapid.Bool().Draw(t, "anywhere") {
					at = rapid.IntRange(0, len(in)-1).Draw(t, "alter at")
				}
				in[at] = pick(t, "to", 0, 1, 2, 3, 4, 5, 127, 128, 255, in[at]+1, in[at]-1, in[at]^0x80)
			}
			fresh := reflect.New(g.RT)
			lf, ef := dec(in, fresh.Interface())
			lp, ep := dec(in, p.Interface())
			hist += " " + hexs(in)
			if i > 0 {
				stats.Case(label, x.interest, keyOf(g, []byte(hist)))
			}
			if (ef == nil) != (ep == nil) {
				t.Fatalf("%s, history%s: fresh err %v, used err %v", g, hist, ef, ep)
			}
			if ef != nil {
				continue
			}
			if lf != lp || !same(fresh.Elem(), p.Elem()) {
				t.Fatalf("%s, history%s\nused:  %s, %d left\nfresh: %s, %d left", g, hist, show(p.Elem().Interface()), lp, show(fresh.Elem().Interface()), lf)
			}
		}
	}
	check(t, "go types", 4000, func(t *rapid.T) {
		o := gOpts{maps: true, variants: true, extensions: true}
		var g *GT
		if rapid.Bool().Draw(t, "struct") {
			g = gStructType(t, 3, o, true)
		} else {
			g = gType(t, 3, o)
		}
		history(t, g, "composite types")
	})
	check(t, "leaves", 4000, func(t *rapid.T) { history(t, gLeafType(t), "leaf types") })
	check(t, "chain", 1500, func(t *rapid.T) {
		cv := pick(t, "type", "Transaction", "Action", "TransactionExtension", "PublicKey", "Signature", "Bytes", "Blob")
		history(t, gtOf(leafTypes[cv]), "transactions and keys")
	})
	check(t, "abi", 600, func(t *rapid.T) { history(t, gtOf(reflect.TypeOf(chain.Abi{})), "ABI definitions") })
}
