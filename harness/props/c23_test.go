package props

import (
	"bytes"
	"encoding"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"sort"
	"testing"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/base58"
	"github.com/greymass/go-eosio/pkg/chain"
	"github.com/greymass/go-eosio/pkg/ripemd160"
	"pgregory.net/rapid"

	"verif/ref"
)

// roomy gives, now and then, a copy of v whose slices have capacity beyond
// their length: how much room a slice has never matters.
func roomy(t *rapid.T, v interface{}) interface{} {
	if v == nil || !chance(t, "roomy", 4) {
		return v
	}
	var track []reflect.Value
	return deepCopy(reflect.ValueOf(v), true, &track).Interface()
}

// deepCopy copies a value and everything it refers to. With spare, slices get
// capacity beyond their length, filled with recognisable content, and track
// receives the full extent of each.
func deepCopy(v reflect.Value, spare bool, track *[]reflect.Value) reflect.Value {
	if !v.IsValid() {
		return v
	}
	n := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			p := reflect.New(v.Type().Elem())
			p.Elem().Set(deepCopy(v.Elem(), spare, track))
			n.Set(p)
		}
	case reflect.Interface:
		if !v.IsNil() {
			n.Set(deepCopy(v.Elem(), spare, track))
		}
	case reflect.Slice:
		if v.IsNil() {
			return n
		}
		extra := 0
		if spare {
			extra = 3
			if v.Type().Elem().Kind() == reflect.Uint8 {
				extra = 40
			}
		}
		full := reflect.MakeSlice(v.Type(), v.Len()+extra, v.Len()+extra)
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Type().Elem() == reflect.TypeOf(byte(0)) {
			reflect.Copy(full, v)
			for i := v.Len(); i < full.Len(); i++ {
				full.Index(i).SetUint(0xa5)
			}
		} else {
			for i := 0; i < v.Len(); i++ {
				full.Index(i).Set(deepCopy(v.Index(i), spare, track))
			}
			for i := v.Len(); i < full.Len() && v.Len() > 0; i++ {
				full.Index(i).Set(deepCopy(v.Index(0), false, nil))
			}
		}
		if spare {
			*track = append(*track, full)
		}
		n.Set(full.Slice(0, v.Len()))
	case reflect.Map:
		if v.IsNil() {
			return n
		}
		n.Set(reflect.MakeMapWithSize(v.Type(), v.Len()))
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, deepCopy(v.MapIndex(k), spare, track))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i), spare, track))
		}
	case reflect.Struct:
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if n.Field(i).CanSet() {
				n.Field(i).Set(deepCopy(v.Field(i), spare, track))
			}
		}
	default:
		n.Set(v)
	}
	return n
}

// guarded is a copy of a value whose memory is watched.
type guarded struct {
	v      reflect.Value
	snap   reflect.Value
	fulls  []reflect.Value
	fsnaps []reflect.Value
}

func guard(v reflect.Value) *guarded {
	g := &guarded{}
	g.v = deepCopy(v, true, &g.fulls)
	g.snap = deepCopy(g.v, false, nil)
	for _, f := range g.fulls {
		g.fsnaps = append(g.fsnaps, deepCopy(f, false, nil))
	}
	return g
}

// changed says what was changed.
func (g *guarded) changed() string {
	if !same(g.v, g.snap) {
		return "the value became " + clip(showV(g.v, 0), 1000)
	}
	for i, f := range g.fulls {
		if !same(f, g.fsnaps[i]) {
			return "memory behind a slice became " + clip(showV(f, 0), 1000) + ", it was " + clip(showV(g.fsnaps[i], 0), 1000)
		}
	}
	return ""
}

// scramble changes everything that can be reached from v.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Interface:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		f := v.Slice(0, v.Cap())
		if f.Type().Elem() == reflect.TypeOf(byte(0)) {
			b := f.Bytes()
			for i := range b {
				b[i] ^= 0x5a
			}
			return
		}
		for i := 0; i < f.Len(); i++ {
			scramble(f.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			e := v.MapIndex(k)
			scramble(e)
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scramble(v.Field(i))
		}
	default:
		if !v.CanSet() {
			return
		}
		switch v.Kind() {
		case reflect.Bool:
			v.SetBool(!v.Bool())
		case reflect.String:
			v.SetString("~")
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			v.SetInt(^v.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			v.SetUint(v.Uint() ^ 0x5a)
		case reflect.Float32, reflect.Float64:
			v.SetFloat(42.5)
		}
	}
}

// hasRefs: the value refers to memory (so sharing is possible).
func hasRefs(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		return !v.IsNil()
	case reflect.Slice, reflect.Map:
		return v.Len() > 0
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if hasRefs(v.Index(i)) {
				return true
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if hasRefs(v.Field(i)) {
				return true
			}
		}
	}
	return false
}

// withSpare puts b in front of 40 marked bytes and returns a check.
func withSpare(b []byte) (in []byte, intact func() bool) {
	full := make([]byte, len(b)+40)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = 0xa5
	}
	snap := append([]byte{}, full...)
	return full[:len(b)], func() bool { return bytes.Equal(full, snap) }
}

func gAnyValue(t *rapid.T, o gOpts) (name string, v reflect.Value, w *WT, interest bool) {
	if rapid.Bool().Draw(t, "leafvalue") {
		cv := gSmallCV(t, leaves, 3000)
		n := reflect.New(reflect.TypeOf(cv.V)).Elem()
		n.Set(reflect.ValueOf(cv.V))
		return cv.Name, n, &WT{raw: cv.Wire}, cv.Interest
	}
	g, v, w, x := gGoValue(t, 3, o)
	return g.String(), v, w, x.interest
}

func TestC23(t *testing.T) {
	largeC23(t)
	check(t, "encode", 4000, func(t *rapid.T) {
		name, v, w, _ := gAnyValue(t, gOpts{maps: true, extensions: true})
		g := guard(v)
		stats.Case("encode", hasRefs(v), name+" "+hexs(w.flat()))
		op := pick(t, "op", "Encode", "Encode pointer", "plain Encode", "JSON", "print", "text")
		run := func() string {
			switch op {
			case "Encode":
				b, err := enc(g.v.Interface())
				return fmt.Sprintf("%x %v", b, err)
			case "Encode pointer":
				b, err := enc(g.v.Addr().Interface())
				return fmt.Sprintf("%x %v", b, err)
			case "plain Encode":
				b, err := plainEnc(g.v.Interface())
				return fmt.Sprintf("%x %v", b, err)
			case "JSON":
				b, err := json.Marshal(g.v.Interface())
				return fmt.Sprintf("%s %v", b, err)
			case "text":
				s := ""
				if m, ok := g.v.Interface().(encoding.TextMarshaler); ok {
					b, err := m.MarshalText()
					s = fmt.Sprintf("%s %v", b, err)
					for i := range b {
						b[i] ^= 0x11
					}
				}
				if m, ok := g.v.Addr().Interface().(fmt.Stringer); ok {
					s += m.String()
				}
				switch x := g.v.Addr().Interface().(type) {
				case *chain.Action:
					s += x.Digest().String()
				case *chain.PublicKey:
					if x.Type == chain.K1 {
						s += x.LegacyString("EOS")
					}
				case *chain.Asset:
					s += fmt.Sprint(x.FloatValue())
				}
				return s
			}
			return fmt.Sprintf("%v", g.v.Interface())
		}
		a := run()
		if c := g.changed(); c != "" {
			t.Fatalf("%s of %s %s: %s", op, name, show(v.Interface()), c)
		}
		if b := run(); a != b && !w.multiMap() && op != "print" {
			t.Fatalf("%s of %s %s gives different answers: %s, then %s", op, name, show(v.Interface()), clip(a, 500), clip(b, 500))
		}
	})
	check(t, "decode", 5000, func(t *rapid.T) {
		name, v, w, _ := gAnyValue(t, gOpts{maps: true, variants: true})
		wire := w.flat()
		in, intact := withSpare(wire)
		stats.Case("decode", hasRefs(v), name+" "+hexs(wire))
		one := func() reflect.Value {
			p := reflect.New(v.Type())
			var r io.Reader = bytes.NewReader(in)
			switch rapid.IntRange(0, 2).Draw(t, "reader") {
			case 0:
				r = bytes.NewBuffer(in)
			case 1:
				r = struct{ io.Reader }{bytes.NewReader(in)}
			}
			var err error
			if rapid.Bool().Draw(t, "plain") {
				err = abi.NewDecoder(r, func(*abi.Decoder, interface{}) (bool, error) { return false, nil }).Decode(p.Interface())
			} else {
				err = chain.NewDecoder(r).Decode(p.Interface())
			}
			if err != nil {
				t.Fatalf("decoding %s from %s: %v", name, hexs(wire), err)
			}
			return p.Elem()
		}
		a, b := one(), one()
		if !intact() {
			t.Fatalf("decoding %s changed its input %s to %s", name, hexs(wire), hexs(in[:cap(in)]))
		}
		snap := deepCopy(b, false, nil)
		scramble(a)
		if !same(b, snap) {
			t.Fatalf("changing one %s decoded from %s changes another one: %s became %s", name, hexs(wire), show(snap.Interface()), show(b.Interface()))
		}
		if !intact() {
			t.Fatalf("changing a %s decoded from %s changes the input", name, hexs(wire))
		}
		for i := range in {
			in[i] ^= 0x77
		}
		if !same(b, snap) {
			t.Fatalf("changing the input %s changes the %s decoded from it: %s became %s", hexs(wire), name, show(snap.Interface()), show(b.Interface()))
		}
	})
	check(t, "stream", 3000, func(t *rapid.T) {
		// values taken from one decoder keep still while it goes on
		n := rapid.IntRange(2, 6).Draw(t, "n")
		var wire []byte
		var vs []reflect.Value
		for i := 0; i < n; i++ {
			_, v, w, _ := gAnyValue(t, gOpts{maps: true})
			vs = append(vs, v)
			wire = append(wire, w.flat()...)
		}
		stats.Case("stream", true, hexs(wire))
		d := chain.NewDecoder(bytes.NewBuffer(append([]byte{}, wire...)))
		var got, snaps []reflect.Value
		for i := 0; i < n; i++ {
			p := reflect.New(vs[i].Type())
			if err := d.Decode(p.Interface()); err != nil {
				t.Fatalf("decoding value %d of %s: %v", i, hexs(wire), err)
			}
			got = append(got, p.Elem())
			snaps = append(snaps, deepCopy(p.Elem(), false, nil))
		}
		for i := range got {
			if !same(got[i], snaps[i]) {
				t.Fatalf("value %d of %s changed while later ones were decoded: %s became %s", i, hexs(wire), show(snaps[i].Interface()), show(got[i].Interface()))
			}
		}
		k := rapid.IntRange(0, n-1).Draw(t, "k")
		scramble(got[k])
		for i := range got {
			if i != k && !same(got[i], snaps[i]) {
				t.Fatalf("changing value %d of %s changed value %d: %s became %s", k, hexs(wire), i, show(snaps[i].Interface()), show(got[i].Interface()))
			}
		}
	})
	check(t, "raw reads", 4000, func(t *rapid.T) {
		data := gFill(t, "data", rapid.IntRange(0, 300).Draw(t, "n"))
		if chance(t, "big", 10) {
			data = gFill(t, "data", rapid.IntRange(60000, 200000).Draw(t, "bign"))
		}
		in, intact := withSpare(data)
		d := chain.NewDecoder(bytes.NewBuffer(in))
		var parts [][]byte
		var want [][]byte
		pos := 0
		for pos < len(data) {
			n := gLen(t, "part", len(data)-pos)
			_, b, err := d.ReadBytes(n)
			if err != nil || !bytes.Equal(b, data[pos:pos+n]) {
				t.Fatalf("ReadBytes(%d) at %d of %s gives %s, %v", n, pos, hexs(data), hexs(b), err)
			}
			parts, want = append(parts, b), append(want, append([]byte{}, b...))
			pos += n
			if len(parts) > 30 {
				break
			}
		}
		stats.Case("raw reads", len(parts) > 1, fmt.Sprint(len(parts), hexs(data)))
		for i := range parts {
			if !bytes.Equal(parts[i], want[i]) {
				t.Fatalf("bytes read earlier changed: part %d of %s", i, hexs(data))
			}
		}
		if len(parts) == 0 {
			return
		}
		k := rapid.IntRange(0, len(parts)-1).Draw(t, "k")
		scramble(reflect.ValueOf(parts[k]))
		for i := range parts {
			if i != k && !bytes.Equal(parts[i], want[i]) {
				t.Fatalf("changing part %d of %s changes part %d", k, hexs(data), i)
			}
		}
		if !intact() {
			t.Fatalf("reading %s changed the input or shares its memory", hexs(data))
		}
	})
	check(t, "reuse", 4000, func(t *rapid.T) {
		// decoding a byte-like value, an action or a transaction into a used variable leaves what the
		// variable held before alone
		sc := scalarNamed(pick(t, "type", "Bytes", "Blob", "PublicKey", "Signature", "[]byte", "Action", "Transaction", "TransactionExtension"))
		cv, cv2 := sc.gen(t), sc.gen(t)
		rt := reflect.TypeOf(cv.V)
		p := reflect.New(rt)
		how := pick(t, "how", "binary", "text")
		if _, ok := p.Interface().(encoding.TextUnmarshaler); !ok || cv.JSON == "" || cv2.JSON == "" {
			how = "binary"
		}
		read := func(c CV) {
			var err error
			if how == "text" {
				err = p.Interface().(encoding.TextUnmarshaler).UnmarshalText([]byte(c.JSON[1 : len(c.JSON)-1]))
			} else {
				_, err = dec(c.Wire, p.Interface())
			}
			if err != nil {
				t.Fatalf("%s: %v", rt, err)
			}
		}
		read(cv)
		kept := p.Elem().Interface()
		snap := deepCopy(reflect.ValueOf(kept), false, nil)
		read(cv2)
		stats.Case("reuse", cv.Interest && cv2.Interest, rt.String()+hexs(cv.Wire)+hexs(cv2.Wire))
		if !same(reflect.ValueOf(kept), snap) {
			t.Fatalf("a %s read before changed when another was read (%s): %s became %s", rt, how, show(snap.Interface()), show(kept))
		}
		scramble(p)
		if !same(reflect.ValueOf(kept), snap) {
			t.Fatalf("a %s read before shares memory with one read later (%s)", rt, how)
		}
	})
	check(t, "text", 6000, func(t *rapid.T) {
		cv := gSmallCV(t, textTypes, 400)
		if cv.JSON == "" {
			return
		}
		s := cv.JSON[1 : len(cv.JSON)-1]
		if chance(t, "bad", 3) {
			s = gBadText(t, s)
		} else if cv.Name == "Blob" {
			s = pick(t, "pad", s, s+"=", trimPad(s))
		}
		in, intact := withSpare([]byte(s))
		rt := reflect.TypeOf(cv.V)
		a, b := reflect.New(rt), reflect.New(rt)
		e1 := a.Interface().(encoding.TextUnmarshaler).UnmarshalText(in)
		if !intact() {
			t.Fatalf("%s: UnmarshalText(%q) changes its input to %q", cv.Name, s, in[:cap(in)])
		}
		e2 := b.Interface().(encoding.TextUnmarshaler).UnmarshalText(in)
		stats.Case("parse "+cv.Name, e1 == nil, s)
		if !intact() || (e1 == nil) != (e2 == nil) || !same(a.Elem(), b.Elem()) {
			t.Fatalf("%s: parsing %q twice gives %s %v, then %s %v", cv.Name, s, show(a.Elem().Interface()), e1, show(b.Elem().Interface()), e2)
		}
		snap := deepCopy(b.Elem(), false, nil)
		scramble(a)
		for i := range in {
			in[i] ^= 0x33
		}
		if !same(b.Elem(), snap) {
			t.Fatalf("%s: the value parsed from %q changes with another value or the text: %s became %s", cv.Name, s, show(snap.Interface()), show(b.Elem().Interface()))
		}
	})
	check(t, "render", 4000, func(t *rapid.T) {
		cv := gSmallCV(t, textTypes, 400)
		m, ok := cv.V.(encoding.TextMarshaler)
		if !ok {
			return
		}
		a, _ := m.MarshalText()
		sa := string(a)
		stats.Case("render "+cv.Name, cv.Interest, sa)
		scramble(reflect.ValueOf(a))
		b, _ := m.MarshalText()
		if string(b) != sa {
			t.Fatalf("changing the text of %s %s changes the next text from %q to %q", cv.Name, show(cv.V), sa, b)
		}
		switch x := cv.V.(type) {
		case chain.Uint128:
			i := x.BigInt()
			i.Add(i, big.NewInt(5))
			by := x.Bytes(binary.BigEndian)
			by[3] ^= 0xff
			if x.BigInt().Cmp(ref.Uint128Big(x.Lo, x.Hi)) != 0 || !bytes.Equal(x.Bytes(binary.LittleEndian), ref.Cat(le(x.Lo, 8), le(x.Hi, 8))) {
				t.Fatalf("%s changed with its big.Int or bytes", show(x))
			}
			in := ref.Uint128Big(x.Lo, x.Hi)
			_ = chain.NewUint128(in)
			if in.Cmp(ref.Uint128Big(x.Lo, x.Hi)) != 0 {
				t.Fatalf("NewUint128 changed its argument to %v", in)
			}
		case chain.Int128:
			i := x.BigInt()
			i.Add(i, big.NewInt(5))
			if x.BigInt().Cmp(ref.Int128Big(x.Lo, x.Hi)) != 0 {
				t.Fatalf("%s changed with its big.Int", show(x))
			}
			in := ref.Int128Big(x.Lo, x.Hi)
			_ = chain.NewInt128(in)
			if in.Cmp(ref.Int128Big(x.Lo, x.Hi)) != 0 {
				t.Fatalf("NewInt128 changed its argument to %v", in)
			}
		}
	})
	check(t, "bytes", 6000, func(t *rapid.T) {
		// the functions that take byte slices
		data := gBytes(t, "data", 300)
		in, intact := withSpare(data)
		suffix := pick(t, "suffix", "", "K1", "R1")
		fns := map[string]func() []byte{
			"base58.Encode":           func() []byte { return []byte(base58.Encode(in)) },
			"base58.CheckEncode":      func() []byte { return []byte(base58.CheckEncode(in)) },
			"base58.CheckEncodeEosio": func() []byte { return []byte(base58.CheckEncodeEosio(in, suffix)) },
			"base58.Decode":           func() []byte { return base58.Decode(ref.Base58(in)) },
			"base58.CheckDecode":      func() []byte { b, _ := base58.CheckDecode(base58.CheckEncode(in)); return b },
			"base58.CheckDecodeEosio": func() []byte {
				b, _ := base58.CheckDecodeEosio(base58.CheckEncodeEosio(in, suffix), suffix)
				return b
			},
			"Checksum160Digest": func() []byte { c := chain.Checksum160Digest(in); return c[:] },
			"Checksum256Digest": func() []byte { c := chain.Checksum256Digest(in); return c[:] },
			"Checksum512Digest": func() []byte { c := chain.Checksum512Digest(in); return c[:] },
			"ripemd160": func() []byte {
				h := ripemd160.New()
				_, _ = h.Write(in)
				_ = h.Sum(in) // onto a slice with room: only the room may be used
				copy(in[len(in):cap(in)], bytes.Repeat([]byte{0xa5}, 40))
				return h.Sum(nil)
			},
			"Bytes.Hex":   func() []byte { return []byte(chain.Bytes(in).Hex()) },
			"Blob.Base64": func() []byte { return []byte(chain.Blob(in).Base64()) },
			"key text":    func() []byte { return []byte(chain.NewPublicKey(chain.K1, in).String()) },
			"key legacy":  func() []byte { return []byte(chain.NewPublicKey(chain.K1, in).LegacyString("EOS")) },
			"sig text":    func() []byte { return []byte(chain.NewSignature(chain.R1, in).String()) },
			"WriteBytes": func() []byte {
				var b bytes.Buffer
				_ = chain.NewEncoder(&b).WriteBytes(in)
				return b.Bytes()
			},
			"action": func() []byte {
				b, _ := enc(chain.NewAction(1, 2, nil, in))
				return b
			},
		}
		fn := pick(t, "fn", sortedKeys(fns)...)
		stats.Case(fn, len(data) > 0, hexs(data))
		a := fns[fn]()
		sa := string(a)
		if !intact() {
			t.Fatalf("%s changes its input %s to %s", fn, hexs(data), hexs(in[:cap(in)]))
		}
		scramble(reflect.ValueOf(a))
		if !intact() {
			t.Fatalf("the result of %s of %s shares memory with the input", fn, hexs(data))
		}
		if b := fns[fn](); string(b) != sa {
			t.Fatalf("%s of %s gives %x, then %x", fn, hexs(data), sa, b)
		}
	})
	check(t, "abi", 3000, func(t *rapid.T) {
		c := gACase(t, schemaOpts{}, false)
		g := guard(reflect.ValueOf(&c.in).Elem())
		ga := guard(reflect.ValueOf(c.s.abi).Elem())
		sa := ga.v.Addr().Interface().(*chain.Abi)
		stats.Case("abi", c.interest, c.key())
		b1, err := abiEnc(sa, c.e.name(), g.v.Interface())
		if err != nil || !bytes.Equal(b1, c.wire) {
			t.Fatalf("%s encodes to %s, %v, want %s", c, hexs(b1), err, hexs(c.wire))
		}
		if s := g.changed(); s != "" {
			t.Fatalf("%s: encoding changes its input: %s", c, s)
		}
		in, intact := withSpare(c.wire)
		dec1 := func() interface{} {
			var r io.Reader = bytes.NewBuffer(in)
			v, err := sa.Decode(r, c.e.name())
			if err != nil {
				t.Fatalf("%s: decoding %s: %v", c, hexs(in), err)
			}
			return v
		}
		v1, v2 := dec1(), dec1()
		if !intact() {
			t.Fatalf("%s: decoding changes its input", c)
		}
		if s := ga.changed(); s != "" {
			t.Fatalf("%s: using the ABI changes it: %s", c, s)
		}
		snap := deepCopy(reflect.ValueOf(&v2).Elem(), false, nil)
		scramble(reflect.ValueOf(&v1))
		for i := range in {
			in[i] ^= 0x77
		}
		if !same(reflect.ValueOf(&v2).Elem(), snap) {
			t.Fatalf("%s: changing one decoded value or the input changes another: %s became %s", c, show(snap.Interface()), show(v2))
		}
		if s := ga.changed(); s != "" {
			t.Fatalf("%s: changing a decoded value changes the ABI: %s", c, s)
		}
		// and the answer is still the same
		b2, err := abiEnc(sa, c.e.name(), g.v.Interface())
		if err != nil || !bytes.Equal(b2, c.wire) {
			t.Fatalf("%s encodes to %s, %v the second time, want %s", c, hexs(b2), err, hexs(c.wire))
		}
	})
	check(t, "action", 2000, func(t *rapid.T) {
		s := gSchema(t, schemaOpts{maxDefs: 4})
		var ns []chain.Name
		for n := range s.actions {
			ns = append(ns, n)
		}
		sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
		for _, n := range ns {
			if chance(t, "skip", 2) {
				continue
			}
			c := gAValue(t, s, AE{def: s.actions[n]}, false)
			act := chain.Action{Account: 1, Name: n, Data: append(make([]byte, 0, len(c.wire)+20), c.wire...)}
			stats.Case("action", c.interest, c.key())
			g := guard(reflect.ValueOf(act))
			a := g.v.Interface().(chain.Action)
			v1, e1 := a.Decode(s.abi)
			v2, e2 := a.Decode(s.abi)
			if (e1 == nil) != (e2 == nil) || !sameI(v1, v2) {
				t.Fatalf("%s: Action.Decode gives %s %v, then %s %v", c, show(v1), e1, show(v2), e2)
			}
			if s := g.changed(); s != "" {
				t.Fatalf("%s: Action.Decode changes the action: %s", c, s)
			}
			snap := deepCopy(reflect.ValueOf(&v2).Elem(), false, nil)
			scramble(reflect.ValueOf(&v1))
			if s := g.changed(); s != "" {
				t.Fatalf("%s: changing the decoded action data changes the action: %s", c, s)
			}
			scramble(reflect.ValueOf(a.Data))
			if !same(reflect.ValueOf(&v2).Elem(), snap) {
				t.Fatalf("%s: decoded action data changes with other data: %s became %s", c, show(snap.Interface()), show(v2))
			}
		}
	})
}

func trimPad(s string) string {
	for len(s) > 0 && s[len(s)-1] == '=' {
		s = s[:len(s)-1]
	}
	return s
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sortStrings(ks)
	return ks
}

func scalarNamed(name string) cvGen {
	for _, g := range allCV {
		if g.name == name {
			return g
		}
	}
	panic("HARNESS-ERROR: no type " + name)
}
