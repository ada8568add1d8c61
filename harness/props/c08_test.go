package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"testing"

	"github.com/greymass/go-eosio/pkg/chain"
	"pgregory.net/rapid"

	"verif/ref"
)

// memory that one decode may allocate in total: a constant plus a multiple of
// the input. Values are far above what any supported type needs, and far below
// what an unchecked 32-bit count asks for.
const (
	allocBase = 32 << 20
	allocPer  = 32 << 10
)

// allocated runs f and returns the bytes it allocated.
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// hostile makes an input out of a valid encoding, or from nothing.
func hostile(t *rapid.T, valid []byte) []byte {
	bomb := func() []byte {
		switch rapid.IntRange(0, 5).Draw(t, "bomb") {
		case 0:
			return []byte{0xff, 0xff, 0xff, 0xff, 0x0f}
		case 1:
			return ref.W(func(w *ref.Wire) { w.Varuint(uint32(1) << rapid.IntRange(14, 31).Draw(t, "bits")) })
		case 2:
			return []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}
		case 3:
			return bytes.Repeat([]byte{0x80}, rapid.IntRange(1, 12).Draw(t, "n80"))
		case 4:
			return []byte{0xff, 0xff, 0xff, 0xff, 0x07}
		default:
			return ref.W(func(w *ref.Wire) { w.Varuint(gVaru(t, "len")) })
		}
	}
	switch rapid.IntRange(0, 9).Draw(t, "how") {
	case 9: // every length there is claims too much
		return append(bytes.Repeat(bomb(), rapid.IntRange(1, 80).Draw(t, "n")), gFill(t, "after", rapid.IntRange(0, 40).Draw(t, "m"))...)
	case 0:
		return gFill(t, "random", rapid.IntRange(0, 200).Draw(t, "n"))
	case 1:
		return bytes.Repeat([]byte{pick(t, "byte", byte(1), 0xff, 0x80, 0x7f, 0x02, 0x01, 0x00)}, pick(t, "n", 1, 10, 100, 1000, 3000))
	case 2:
		return append(bomb(), gFill(t, "after", rapid.IntRange(0, 40).Draw(t, "n"))...)
	}
	b := append([]byte{}, valid...)
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "nmut"); i < n; i++ {
		at := rapid.IntRange(0, len(b)).Draw(t, "at")
		switch rapid.IntRange(0, 5).Draw(t, "mut") {
		case 0: // overwrite with a huge count
			x := bomb()
			b = append(append(append([]byte{}, b[:at]...), x...), b[minI(len(b), at+rapid.IntRange(0, len(x)).Draw(t, "over")):]...)
		case 1: // flip bits
			if at < len(b) {
				b[at] ^= byte(1) << rapid.IntRange(0, 7).Draw(t, "bit")
			}
		case 2: // set a byte
			if at < len(b) {
				b[at] = gU8(t, "byte")
			}
		case 3: // delete
			end := minI(len(b), at+rapid.IntRange(1, 8).Draw(t, "del"))
			b = append(append([]byte{}, b[:at]...), b[end:]...)
		case 4: // insert
			b = append(append(append([]byte{}, b[:at]...), gFill(t, "ins", rapid.IntRange(1, 8).Draw(t, "nins"))...), b[at:]...)
		case 5: // append
			b = append(b, gFill(t, "app", rapid.IntRange(1, 40).Draw(t, "napp"))...)
		}
	}
	return b
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// render turns a decoded value into text every way there is.
func render(v interface{}) {
	_ = fmt.Sprintf("%v", v)
	_, _ = json.Marshal(v)
	renderAll(reflect.ValueOf(v), 0)
}

func renderAll(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 12 {
		return
	}
	if v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		if !v.IsNil() {
			renderAll(v.Elem(), depth+1)
		}
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case chain.Asset:
			_ = x.String()
			_ = x.FloatValue()
			_ = x.Precision()
			_ = x.Symbol.Name()
			return
		case chain.Symbol:
			_ = x.String()
			_ = x.Precision()
			return
		case chain.PublicKey:
			_ = x.String()
			if x.Type == chain.K1 {
				_ = x.LegacyString("EOS")
			}
			return
		case chain.Signature:
			_ = x.String()
			return
		case chain.Action:
			_ = x.Digest()
		case chain.TimePoint:
			_ = x.String()
			_ = x.Time()
			return
		case chain.Int128:
			_ = x.String()
			_ = x.BigInt()
			return
		case fmt.Stringer:
			_ = x.String()
		}
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return
		}
		for i := 0; i < v.Len() && i < 20; i++ {
			renderAll(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			renderAll(v.Field(i), depth+1)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			renderAll(v.MapIndex(k), depth+1)
		}
	}
}

// BigElem is large in memory but small in the data.
type BigElem struct {
	Words [64]uint64 `eosio:"optional"`
	Next  *BigElem   `eosio:"optional"`
}

type hostileT struct {
	A []BigElem
	B map[string][]uint16
	C [][]byte
	D []*Node
	E map[uint32]string
	F []string
	G []chain.Action
}

func TestC08(t *testing.T) {
	one := func(t *rapid.T, g *GT, in []byte, label string) {
		Journal("typed decode of %s from %x", g, in)
		p := reflect.New(g.RT)
		var err error
		var msg string
		var bad bool
		used := allocated(func() { msg, bad = noPanic(func() { _, err = dec(in, p.Interface()) }) })
		stats.Case(label, len(in) > 2, keyOf(g, in))
		if err == nil {
			stats.Count(label + ": decoded")
		}
		if bad {
			t.Fatalf("decoding %s from %s panics: %s", g, hexs(in), msg)
		}
		if used > uint64(allocBase+allocPer*len(in)) {
			t.Fatalf("decoding %s from %d bytes %s allocates %d bytes", g, len(in), hexs(in), used)
		}
		if err != nil {
			return
		}
		if msg, bad := noPanic(func() { render(p.Elem().Interface()) }); bad {
			t.Fatalf("rendering %s decoded from %s panics: %s", show(p.Elem().Interface()), hexs(in), msg)
		}
		if g.has(kVariant) || len(g.Fields) > 0 && g.Fields[len(g.Fields)-1].Tag == "extension" {
			return // variants can't be encoded this way, and neither can absent extensions
		}
		var b []byte
		if msg, bad := noPanic(func() { b, err = enc(p.Elem().Interface()) }); bad || err != nil {
			t.Fatalf("%s %s decoded from %s does not encode: %v %s", g, show(p.Elem().Interface()), hexs(in), err, msg)
		}
		q := reflect.New(g.RT)
		left, err := dec(b, q.Interface())
		if err != nil || left != 0 || !same(p.Elem(), q.Elem()) {
			t.Fatalf("%s decoded from %s is %s\nits encoding %s decodes to %s, err %v, %d left", g, hexs(in), show(p.Elem().Interface()), hexs(b), show(q.Elem().Interface()), err, left)
		}
	}
	valid := func(t *rapid.T, g *GT) []byte {
		x := &vgen{t: t, budget: 600}
		_, w := x.value(g, 0)
		return w.flat()
	}
	check(t, "leaves", 4000, func(t *rapid.T) {
		g := gLeafType(t)
		one(t, g, hostile(t, valid(t, g)), "leaf types")
	})
	check(t, "go types", 4000, func(t *rapid.T) {
		o := gOpts{maps: true, variants: chance(t, "variants", 3), extensions: chance(t, "extensions", 3)}
		var g *GT
		if rapid.Bool().Draw(t, "struct") {
			g = gStructType(t, 3, o, true)
		} else {
			g = gType(t, 3, o)
		}
		one(t, g, hostile(t, valid(t, g)), "composite types")
	})
	check(t, "named", 2000, func(t *rapid.T) {
		rt := pick(t, "named", reflect.TypeOf(hostileT{}), reflect.TypeOf([]BigElem{}), reflect.TypeOf(BigElem{}), reflect.TypeOf(Node{}), reflect.TypeOf([][]Node{}),
			reflect.TypeOf([]struct{}{}), reflect.TypeOf([][]struct{}{}), reflect.TypeOf([][0]string{}), reflect.TypeOf(map[uint8]struct{}{}), reflect.TypeOf([]Empty{}), reflect.TypeOf([]*Empty{}),
			reflect.TypeOf(map[struct{}]struct{}{}), reflect.TypeOf(map[Empty]*Empty{}), reflect.TypeOf(map[[0]uint8][]struct{}{}),
			reflect.TypeOf(chain.Transaction{}), reflect.TypeOf(chain.Abi{}), reflect.TypeOf(chain.Action{}))
		g := gtOf(rt)
		b := hostile(t, valid(t, g))
		one(t, g, b, "recursive, empty and large element types")
	})
	check(t, "deep", 60, func(t *rapid.T) {
		// nesting as deep as the input is long
		n := pick(t, "n", 5000, 9999, 10001, 20000, 100000, 1000000)
		var g *GT
		var unit []byte
		switch rapid.IntRange(0, 2).Draw(t, "deep") {
		case 0:
			g, unit = gtOf(reflect.TypeOf(Node{})), []byte{1, 1} // value, next
		case 1:
			g, unit = gtOf(reflect.TypeOf(Node{})), []byte{1, 0, 1} // value, no next, one kid
		case 2:
			g, unit = gtOf(reflect.TypeOf(BigElem{})), []byte{0, 1}
		}
		in := bytes.Repeat(unit, n)
		in = append(in, 0, 0, 0, 0)
		Journal("deep nesting: %s from %x repeated %d times", g, unit, n)
		stats.Case("deep nesting", true, fmt.Sprint(g, unit, n))
		p := reflect.New(g.RT)
		used := allocated(func() {
			if msg, bad := noPanic(func() { _, _ = dec(in, p.Interface()) }); bad {
				t.Fatalf("%s from %x repeated %d times panics: %s", g, unit, n, msg)
			}
		})
		if used > uint64(allocBase+allocPer*len(in)) {
			t.Fatalf("%s from %x repeated %d times allocates %d bytes", g, unit, n, used)
		}
	})
	check(t, "growth", 40, func(t *rapid.T) {
		// four times the data may not take much more than four times the memory
		var name string
		var make1 func(n int) []byte
		var run func(in []byte) error
		typed := func(rt reflect.Type) {
			name = rt.String()
			run = func(in []byte) error {
				left, err := dec(in, reflect.New(rt).Interface())
				if err == nil && left != 0 {
					err = fmt.Errorf("%d bytes left", left)
				}
				return err
			}
		}
		through := func(a *chain.Abi, typ string) {
			name = typ + " through an ABI"
			run = func(in []byte) error {
				_, left, err := abiDec(a, typ, in)
				if err == nil && left != 0 {
					err = fmt.Errorf("%d bytes left", left)
				}
				return err
			}
		}
		count := func(n int) []byte { return ref.W(func(w *ref.Wire) { w.Varuint(uint32(n)) }) }
		around := func(before, after []byte) func(n int) []byte {
			return func(n int) []byte {
				b := append(append([]byte{}, before...), count(n)...)
				return append(append(b, make([]byte, n)...), after...)
			}
		}
		n := 1 << 19
		switch rapid.IntRange(0, 3).Draw(t, "kind") {
		case 0: // one long run of bytes
			zeros := make([]byte, 100)
			k := rapid.IntRange(0, 7).Draw(t, "run")
			make1 = around(nil, nil)
			kinds := []reflect.Type{reflect.TypeOf(""), reflect.TypeOf([]byte{}), reflect.TypeOf(chain.Bytes{}), reflect.TypeOf(chain.Blob{}), reflect.TypeOf(chain.PublicKey{}), reflect.TypeOf(chain.Signature{}), reflect.TypeOf(chain.Action{}), reflect.TypeOf(chain.Signature{})}
			switch k {
			case 4:
				make1 = around(append([]byte{2}, zeros[:34]...), nil)
			case 5:
				make1 = around(append([]byte{2}, zeros[:65]...), []byte{0})
			case 6:
				make1 = around(zeros[:17], nil)
			case 7:
				make1 = around(append([]byte{2}, zeros[:66]...), nil)
			}
			typed(kinds[k])
			if typ := []string{"string", "bytes", "bytes", "bytes", "public_key", "signature", "", "signature"}[k]; typ != "" && rapid.Bool().Draw(t, "abi") {
				through(&chain.Abi{}, typ)
			}
		case 1: // many elements
			n = 10000
			g := gLeafType(t)
			if rapid.IntRange(0, 3).Draw(t, "composite") == 3 {
				g = gType(t, 1, gOpts{maps: true})
			}
			one := valid(t, g)
			if len(one) == 0 || len(one) > 100 {
				t.Skip()
			}
			if rapid.Bool().Draw(t, "map") {
				typed(reflect.MapOf(reflect.TypeOf(uint32(0)), g.RT))
				make1 = func(n int) []byte {
					b := count(n)
					for i := 0; i < n; i++ {
						b = append(append(b, byte(i), byte(i>>8), byte(i>>16), byte(i>>24)), one...)
					}
					return b
				}
				break
			}
			typed(reflect.SliceOf(g.RT))
			make1 = func(n int) []byte { return append(count(n), bytes.Repeat(one, n)...) }
		case 2: // the lists of the transaction types
			n = 10000
			type list struct {
				rt            reflect.Type
				before, after int
				one           []byte
			}
			action := make([]byte, 18)
			l := pick(t, "list", list{reflect.TypeOf(chain.Action{}), 16, 1, make([]byte, 16)}, list{reflect.TypeOf(chain.Transaction{}), 13, 2, action}, list{reflect.TypeOf(chain.Transaction{}), 14, 1, action},
				list{reflect.TypeOf(chain.Transaction{}), 15, 0, []byte{1, 0, 0}}, list{reflect.TypeOf(chain.Abi{}), 1, 7, []byte{1, 'a', 1, 'b'}}, list{reflect.TypeOf(chain.Abi{}), 2, 6, []byte{1, 'a', 0, 0}})
			typed(l.rt)
			make1 = func(n int) []byte {
				b := append(make([]byte, l.before), count(n)...)
				return append(append(b, bytes.Repeat(l.one, n)...), make([]byte, l.after)...)
			}
		case 3: // lists through an ABI
			n = 10000
			s := gSchema(t, schemaOpts{})
			e := s.top(t)
			e.arr, e.opt, e.ext, e.rev = false, false, false, false
			c := gAValue(t, s, e, true)
			if len(c.cuts) > 0 || len(c.wire) == 0 || len(c.wire) > 100 {
				t.Skip()
			}
			through(s.abi, e.name()+"[]")
			make1 = func(n int) []byte { return append(count(n), bytes.Repeat(c.wire, n)...) }
		}
		small, large := make1(n), make1(4*n)
		Journal("growth of %s from %d to %d elements", name, n, 4*n)
		stats.Case("growth", true, fmt.Sprint(name, len(small), hexs(small[:minI(len(small), 60)])))
		var e1, e2 error
		m1 := allocated(func() { e1 = run(small) })
		m2 := allocated(func() { e2 = run(large) })
		if e1 != nil || e2 != nil {
			t.Fatalf("%s of %d and %d elements (%s...): %v, %v", name, n, 4*n, hexs(small[:minI(len(small), 60)]), e1, e2)
		}
		if m2 > 8*m1+4<<20 {
			t.Fatalf("decoding %s of %d elements allocates %d bytes, and %d bytes for %d elements (%s...)", name, n, m1, m2, 4*n, hexs(small[:minI(len(small), 60)]))
		}
	})
	check(t, "abi", 5000, func(t *rapid.T) {
		c := gACase(t, schemaOpts{}, false)
		in := hostile(t, c.wire)
		hostileABI(t, c.s, c.e.name(), in, "through an ABI")
	})
	check(t, "abi deep", 80, func(t *rapid.T) {
		a := &chain.Abi{Structs: []chain.AbiStruct{
			{Name: "node", Fields: []chain.AbiField{{Name: "v", Type: "uint8"}, {Name: "next", Type: "node?"}}},
			{Name: "tree", Fields: []chain.AbiField{{Name: "kids", Type: "tree[]"}}},
			{Name: "e", Fields: nil},
			{Name: "ee", Base: "e", Fields: []chain.AbiField{{Name: "e1", Type: "e"}, {Name: "e2", Type: "e"}}},
		}, Variants: []chain.AbiVariant{{Name: "v", Types: []string{"vl", "uint8"}}}, Types: []chain.AbiType{{NewTypeName: "vl", Type: "v[]"}}}
		n := pick(t, "n", 5000, 20000, 200000)
		var unit []byte
		name := pick(t, "type", "node", "tree", "v", "e[]", "ee[]", "tree[]")
		switch name {
		case "node":
			unit = []byte{1, 1}
		case "tree", "tree[]":
			unit = []byte{1}
		case "v":
			unit = []byte{0, 1}
		default:
			unit = []byte{0xff}
			n = 3
		}
		in := append(bytes.Repeat(unit, n), 0x0f, 0, 0, 0)
		Journal("deep nesting through an ABI: %s from %x repeated %d times", name, unit, n)
		stats.Case("deep nesting through an ABI", true, fmt.Sprint(name, unit, n))
		var msg string
		var bad bool
		used := allocated(func() { msg, bad = noPanic(func() { _, _, _ = abiDec(a, name, in) }) })
		if bad {
			t.Fatalf("%s from %x repeated %d times panics: %s", name, unit, n, msg)
		}
		if used > uint64(allocBase+allocPer*len(in)) {
			t.Fatalf("%s from %x repeated %d times allocates %d bytes", name, unit, n, used)
		}
	})
}

// hostileABI decodes arbitrary bytes through a well-formed ABI.
func hostileABI(t *rapid.T, s *Schema, name string, in []byte, label string) {
	Journal("decode of %s from %x through the ABI %s", name, in, s.text())
	var v interface{}
	var err error
	var msg string
	var bad bool
	used := allocated(func() { msg, bad = noPanic(func() { v, _, err = abiDec(s.abi, name, in) }) })
	stats.Case(label, len(in) > 2, s.text()+name+hexs(in))
	if err == nil {
		stats.Count(label + ": decoded")
	}
	what := fmt.Sprintf("%s; %s from %s", s.text(), name, hexs(in))
	if bad {
		t.Fatalf("%s panics: %s", what, msg)
	}
	if used > uint64(allocBase+allocPer*len(in)) {
		t.Fatalf("%s (%d bytes) allocates %d bytes", what, len(in), used)
	}
	if err != nil {
		return
	}
	if msg, bad := noPanic(func() { render(v) }); bad {
		t.Fatalf("%s: rendering %s panics: %s", what, show(v), msg)
	}
	var b []byte
	if msg, bad := noPanic(func() { b, err = abiEnc(s.abi, name, v) }); bad || err != nil {
		t.Fatalf("%s: %s does not encode: %v %s", what, show(v), err, msg)
	}
	v2, left, err := abiDec(s.abi, name, b)
	if err != nil || left != 0 || !sameI(v, v2) {
		t.Fatalf("%s: %s encodes to %s which decodes to %s, err %v", what, show(v), hexs(b), show(v2), err)
	}
}
