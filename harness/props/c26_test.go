package props

import (
	"bytes"
	"errors"
	"fmt"
	"hash/fnv"
	"reflect"
	"strings"
	"testing"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
	"pgregory.net/rapid"
)

var errHook = errors.New("error from the hook")

const (
	hookHandle = 1 + iota // writes the type's own token
	hookNested            // the same through nested Encode/Decode calls
	hookFail
)

// A hookPlan says what a custom hook does with the values of each type. While a
// value is generated it works out what the codec has to do with it.
type hookPlan struct {
	mode    map[reflect.Type]int
	table   map[uint64]reflect.Value // token -> value
	visited []reflect.Type           // types of the values the codec gets to see
	fails   int                      // values that make the hook fail
	handled int
	doneErr bool // what the hook returns along with its error
	seen    map[reflect.Type]bool
}

type hookMark struct{ visited, fails, handled int }

func (h *hookPlan) mark() hookMark {
	if h == nil {
		return hookMark{}
	}
	return hookMark{len(h.visited), h.fails, h.handled}
}

func (h *hookPlan) reset(m hookMark) {
	if h != nil {
		h.visited, h.fails, h.handled = h.visited[:m.visited], m.fails, m.handled
	}
}

func token(v reflect.Value) uint64 {
	var b strings.Builder
	exactV(&b, v, 0)
	f := fnv.New64a()
	fmt.Fprintf(f, "%s %s", v.Type(), b.String())
	return f.Sum64()
}

func tokenBytes(mode int, tok uint64) []byte {
	b := append([]byte{0xe5}, le(tok, 8)...)
	if mode == hookNested {
		b = append([]byte{0xe6, 16}, fmt.Sprintf("%016x", tok)...)
	}
	return b
}

// apply is called for every generated value with what was noted before it.
func (h *hookPlan) apply(m hookMark, g *GT, v reflect.Value, w *WT) *WT {
	mode := h.mode[g.RT]
	if mode != 0 {
		h.reset(m) // nothing inside is seen by the codec
	}
	if g.K != kPtr && g.K != kVariant {
		h.visited = append(h.visited, g.RT)
	}
	switch mode {
	case hookFail:
		h.fails++
	case hookHandle, hookNested:
		h.handled++
		tok := token(v)
		h.table[tok] = v
		return &WT{raw: tokenBytes(mode, tok)}
	}
	return w
}

func baseType(rt reflect.Type) reflect.Type {
	for rt.Kind() == reflect.Ptr {
		rt = rt.Elem()
	}
	return rt
}

func (h *hookPlan) encode(e *abi.Encoder, v interface{}) (bool, error) {
	rt := reflect.TypeOf(v)
	if rt == nil {
		return false, nil
	}
	h.seen[baseType(rt)] = true
	mode := h.mode[baseType(rt)]
	if mode == 0 {
		return false, nil
	}
	if mode == hookFail {
		return h.doneErr, errHook
	}
	rv := reflect.ValueOf(v)
	for rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			return false, nil
		}
		rv = rv.Elem()
	}
	tok := token(rv)
	if mode == hookNested {
		if err := e.Encode(uint8(0xe6)); err != nil {
			return true, err
		}
		return true, e.Encode(fmt.Sprintf("%016x", tok))
	}
	return true, e.WriteBytes(tokenBytes(mode, tok))
}

func (h *hookPlan) decode(d *abi.Decoder, v interface{}) (bool, error) {
	rt := reflect.TypeOf(v)
	h.seen[baseType(rt)] = true
	mode := h.mode[baseType(rt)]
	if mode == 0 {
		return false, nil
	}
	if mode == hookFail {
		return h.doneErr, errHook
	}
	var tok uint64
	if mode == hookNested {
		var m uint8
		var s string
		if err := d.Decode(&m); err != nil {
			return true, err
		}
		if err := d.Decode(&s); err != nil {
			return true, err
		}
		if _, err := fmt.Sscanf(s, "%x", &tok); err != nil || m != 0xe6 {
			return true, fmt.Errorf("no token where one was written: %x %q", m, s)
		}
	} else {
		_, b, err := d.ReadBytes(9)
		if err != nil {
			return true, err
		}
		for i := 8; i > 0; i-- {
			tok = tok<<8 | uint64(b[i])
		}
	}
	val, ok := h.table[tok]
	if !ok {
		return true, fmt.Errorf("unknown token %x", tok)
	}
	p := reflect.ValueOf(v)
	for p.Elem().Kind() == reflect.Ptr {
		if p.Elem().IsNil() {
			p.Elem().Set(reflect.New(p.Elem().Type().Elem()))
		}
		p = p.Elem()
	}
	p.Elem().Set(val)
	return true, nil
}

// leaves whose own codec may or may not use the generic one for their parts
var compound = map[string]bool{"Asset": true, "ExtendedAsset": true, "PermissionLevel": true, "Action": true, "TransactionHeader": true, "TransactionExtension": true, "Transaction": true}

// leaves that are no part of those
var standalone = map[string]bool{"TimePoint": true, "BlockTimestamp": true, "Checksum160": true, "Checksum256": true, "Checksum512": true, "Uint128": true, "Int128": true, "Float128": true,
	"Blob": true, "PublicKey": true, "Signature": true, "Custom3": true, "CustomList": true, "CustomStr": true, "CustomU8": true, "CustomArr": true, "CustomMap": true,
	"MyU64": true, "MyU32": true, "MyI64": true, "MyI32": true, "ExtendedAsset": true, "Transaction": true}

func walkTypes(g *GT, seen map[*GT]bool, f func(*GT)) {
	if g == nil || seen[g] {
		return
	}
	seen[g] = true
	f(g)
	walkTypes(g.Elem, seen, f)
	walkTypes(g.Key, seen, f)
	for _, x := range g.Fields {
		walkTypes(x.T, seen, f)
	}
}

func gPlan(t *rapid.T, g *GT, fails bool) *hookPlan {
	h := &hookPlan{mode: map[reflect.Type]int{}, table: map[uint64]reflect.Value{}, seen: map[reflect.Type]bool{}, doneErr: rapid.Bool().Draw(t, "done with error")}
	hasCompound, byteList := false, false
	var cands []*GT
	walkTypes(g, map[*GT]bool{}, func(x *GT) {
		if x.K == kLeaf && compound[x.Leaf.name] {
			hasCompound = true
		}
		// a []byte is one value, and so may be the bytes of a type with its own codec
		if x.K == kSlice && x.Elem.RT == reflect.TypeOf(uint8(0)) || x.K == kLeaf && x.RT.PkgPath() != "" {
			byteList = true
		}
	})
	dup := map[reflect.Type]bool{}
	walkTypes(g, map[*GT]bool{}, func(x *GT) {
		if x.K == kPtr || x.K == kVariant || dup[x.RT] {
			return
		}
		if byteList && x.RT == reflect.TypeOf(uint8(0)) {
			return
		}
		if x.K == kLeaf && hasCompound && !standalone[x.Leaf.name] {
			return
		}
		dup[x.RT] = true
		cands = append(cands, x)
	})
	if len(cands) == 0 {
		return h
	}
	for n := rapid.IntRange(0, 3).Draw(t, "types handled"); n > 0; n-- {
		x := cands[rapid.IntRange(0, len(cands)-1).Draw(t, "type handled")]
		h.mode[x.RT] = pick(t, "how", hookHandle, hookNested)
	}
	if fails {
		x := cands[rapid.IntRange(0, len(cands)-1).Draw(t, "type that fails")]
		h.mode[x.RT] = hookFail
	}
	if h.mode[reflect.TypeOf("")] != 0 || h.mode[reflect.TypeOf(uint8(0))] != 0 { // what nested tokens are made of
		for rt, m := range h.mode {
			if m == hookNested {
				h.mode[rt] = hookHandle
			}
		}
	}
	return h
}

func (h *hookPlan) String() string {
	var s []string
	for rt, m := range h.mode {
		s = append(s, fmt.Sprintf("%s: %s", clip(rt.String(), 200), []string{"", "handled", "handled through nested calls", "fails"}[m]))
	}
	sortStrings(s)
	return fmt.Sprint(s)
}

// Failing cannot be encoded or decoded.
type Failing struct{ N uint8 }

var errFailing = errors.New("error from the type")

func (f Failing) MarshalABI(*abi.Encoder) error    { return errFailing }
func (f *Failing) UnmarshalABI(*abi.Decoder) error { return errFailing }

func TestC26(t *testing.T) {
	largeC26(t)
	run := func(t *rapid.T, g *GT, fails bool, label string) {
		h := gPlan(t, g, fails)
		x := &vgen{t: t, budget: 3000, hook: h}
		v, w := x.value(g, 0)
		want := w.flat()
		custom := rapid.IntRange(0, 3).Draw(t, "codec") != 0 // else the hook alone, no chain codec behind it
		stats.Case(label, h.handled > 0 || h.fails > 0, h.String()+" "+keyOf(g, want))
		desc := func() string {
			return fmt.Sprintf("hook %s, value %s %s", h, g, show(v.Interface()))
		}
		consulted := func(what string) {
			for _, rt := range h.visited {
				if rt.Kind() == reflect.Uint8 && rt.PkgPath() == "" {
					continue
				}
				if !h.seen[rt] {
					t.Fatalf("%s: the hook was not asked about %s when %s; asked about %v", desc(), rt, what, typeNames(h.seen))
				}
			}
			h.seen = map[reflect.Type]bool{}
		}
		hasVariant := false
		walkTypes(g, map[*GT]bool{}, func(x *GT) { hasVariant = hasVariant || x.K == kVariant })
		if !hasVariant {
			for _, in := range []interface{}{v.Interface(), v.Addr().Interface()} {
				var b bytes.Buffer
				e := chain.NewCustomEncoder(&b, h.encode)
				if !custom {
					e = abi.NewEncoder(&b, h.encode)
				}
				err := e.Encode(in)
				if h.fails > 0 {
					if !errors.Is(err, errHook) {
						t.Fatalf("%s: encoding gives error %v, want the hook's", desc(), err)
					}
					h.seen = map[reflect.Type]bool{}
					continue
				}
				if err != nil {
					t.Fatalf("%s: encoding: %v", desc(), err)
				}
				if rest, ok := w.match(b.Bytes()); !ok || len(rest) > 0 {
					t.Fatalf("%s: encodes to %s, want %s", desc(), hexs(b.Bytes()), hexs(want))
				}
				consulted("encoding")
			}
		}
		tail := []byte{1, 2, 3}
		r := bytes.NewReader(append(append([]byte{}, want...), tail...))
		d := chain.NewCustomDecoder(r, h.decode)
		if !custom {
			d = abi.NewDecoder(r, h.decode)
		}
		p := reflect.New(g.RT)
		err := d.Decode(p.Interface())
		if h.fails > 0 {
			if !errors.Is(err, errHook) {
				t.Fatalf("%s: decoding gives error %v, want the hook's", desc(), err)
			}
			return
		}
		if err != nil {
			t.Fatalf("%s: decoding %s: %v", desc(), hexs(want), err)
		}
		if !same(p.Elem(), v) || r.Len() != len(tail) {
			t.Fatalf("%s: decoding %s gives %s, %d bytes left over instead of %d", desc(), hexs(want), show(p.Elem().Interface()), r.Len(), len(tail))
		}
		consulted("decoding")
	}
	gt := func(t *rapid.T, variants bool) *GT {
		o := gOpts{maps: true, own: true, variants: variants}
		if rapid.IntRange(0, 3).Draw(t, "top") == 0 {
			return gType(t, 3, o)
		}
		return gStructType(t, 3, o, true)
	}
	check(t, "leaves", 4000, func(t *rapid.T) { run(t, gLeafType(t), false, "leaf") })
	check(t, "handled", 5000, func(t *rapid.T) { run(t, gt(t, false), false, "handled") })
	check(t, "variants", 1500, func(t *rapid.T) { run(t, gt(t, true), false, "with variants") })
	check(t, "failing", 4000, func(t *rapid.T) { run(t, gt(t, rapid.Bool().Draw(t, "variants")), true, "failing") })
	check(t, "declining", 4000, func(t *rapid.T) {
		// a hook that never does anything makes no difference, whatever the input
		g := gt(t, true)
		x := &vgen{t: t, budget: 3000}
		_, w := x.value(g, 0)
		in := w.flat()
		if len(in) > 0 && rapid.Bool().Draw(t, "mutate") {
			switch rapid.IntRange(0, 2).Draw(t, "how") {
			case 0:
				in = in[:rapid.IntRange(0, len(in)-1).Draw(t, "cut")]
			case 1:
				in[rapid.IntRange(0, len(in)-1).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			case 2:
				in[rapid.IntRange(0, len(in)-1).Draw(t, "at")] = 0
			}
		}
		stats.Case("declining", x.interest, keyOf(g, in))
		none := func(*abi.Decoder, interface{}) (bool, error) { return false, nil }
		a, b := reflect.New(g.RT), reflect.New(g.RT)
		ra, rb := bytes.NewReader(in), bytes.NewReader(in)
		ea, eb := chain.NewDecoder(ra).Decode(a.Interface()), chain.NewCustomDecoder(rb, none).Decode(b.Interface())
		if (ea == nil) != (eb == nil) || ra.Len() != rb.Len() || ea == nil && !same(a, b) {
			t.Fatalf("%s from %s: the chain decoder gives %s %v (%d left), with a hook that declines %s %v (%d left)",
				g, hexs(in), show(a.Elem().Interface()), ea, ra.Len(), show(b.Elem().Interface()), eb, rb.Len())
		}
		if ea != nil {
			return
		}
		var ba, bb bytes.Buffer
		ea, eb = chain.NewEncoder(&ba).Encode(a.Elem().Interface()), chain.NewCustomEncoder(&bb, func(*abi.Encoder, interface{}) (bool, error) { return false, nil }).Encode(a.Elem().Interface())
		if (ea == nil) != (eb == nil) || ea == nil && !bytes.Equal(ba.Bytes(), bb.Bytes()) && (ba.Len() != bb.Len() || !hasMap(g.RT, nil)) {
			t.Fatalf("%s: the chain encoder gives %s %v, with a hook that declines %s %v", show(a.Elem().Interface()), hexs(ba.Bytes()), ea, hexs(bb.Bytes()), eb)
		}
	})
	check(t, "failing types", 2000, func(t *rapid.T) {
		// an error from a type's own methods gets out from wherever it sits
		v := reflect.ValueOf(Failing{3})
		var wire []byte
		noEnc := false // variants are decoded only
		for n := rapid.IntRange(0, 4).Draw(t, "levels"); n > 0; n-- {
			rt := v.Type()
			switch rapid.IntRange(0, 7).Draw(t, "level") {
			case 6: // in an alternative of a variant
				if rt.Kind() == reflect.Ptr {
					continue
				}
				vs := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf((*string)(nil))}, {Name: "B", Type: reflect.PointerTo(rt)}}))
				s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "V", Type: vs.Elem().Type(), Tag: `eosio:"variant"`}})).Elem()
				v, wire, noEnc = s, append([]byte{1}, wire...), true
			case 7:
				s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: rt, Tag: `eosio:"extension"`}})).Elem()
				s.Field(0).Set(v)
				v = s
			case 0:
				s := reflect.MakeSlice(reflect.SliceOf(rt), 2, 2)
				s.Index(0).Set(v)
				s.Index(1).Set(v)
				v, wire = s, append([]byte{2}, wire...)
			case 1:
				a := reflect.New(reflect.ArrayOf(3, rt)).Elem()
				for i := 0; i < 3; i++ {
					a.Index(i).Set(v)
				}
				v = a
			case 2:
				m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(uint8(0)), rt))
				m.SetMapIndex(reflect.ValueOf(uint8(9)), v)
				v, wire = m, append([]byte{1, 9}, wire...)
			case 3:
				if rt.Kind() == reflect.Ptr {
					continue
				}
				p := reflect.New(rt)
				p.Elem().Set(v)
				v = p
			case 4:
				s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(uint16(0))}, {Name: "B", Type: rt}, {Name: "C", Type: reflect.TypeOf("")}})).Elem()
				s.Field(0).SetUint(0x0403)
				s.Field(1).Set(v)
				v, wire = s, append([]byte{3, 4}, wire...)
			case 5:
				s := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: rt, Tag: `eosio:"optional"`}})).Elem()
				s.Field(0).Set(v)
				v, wire = s, append([]byte{1}, wire...)
			}
		}
		stats.Case("failing type", v.Type().Name() == "", v.Type().String())
		enc2, dec2 := enc, dec
		if rapid.Bool().Draw(t, "plain") {
			enc2, dec2 = plainEnc, plainDec
		}
		if _, err := enc2(v.Interface()); !noEnc && !errors.Is(err, errFailing) {
			t.Fatalf("encoding %s gives error %v, want that of the type inside", v.Type(), err)
		}
		if _, err := dec2(append(wire, 0, 0, 0, 0, 0, 0), reflect.New(v.Type()).Interface()); !errors.Is(err, errFailing) {
			t.Fatalf("decoding %s from %s gives error %v, want that of the type inside", v.Type(), hexs(wire), err)
		}
		if err := chain.NewDecoder(bytes.NewReader(make([]byte, 9))).DecodeVariant(new(Failing)); !errors.Is(err, errFailing) {
			t.Fatalf("decoding a variant with methods of its own gives error %v, want that of its method", err)
		}
	})
}

// hasMap: values of the type may encode in more than one order.
func hasMap(rt reflect.Type, seen map[reflect.Type]bool) bool {
	if seen == nil {
		seen = map[reflect.Type]bool{}
	}
	if seen[rt] {
		return false
	}
	seen[rt] = true
	switch rt.Kind() {
	case reflect.Map:
		return true
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return hasMap(rt.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < rt.NumField(); i++ {
			if hasMap(rt.Field(i).Type, seen) {
				return true
			}
		}
	}
	return false
}

func typeNames(m map[reflect.Type]bool) []string {
	var s []string
	for rt := range m {
		s = append(s, clip(rt.String(), 100))
	}
	sortStrings(s)
	return s
}
