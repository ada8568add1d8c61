package props

import (
	"bytes"
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"strings"
	"testing"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/base58"
	"github.com/greymass/go-eosio/pkg/chain"
	"github.com/greymass/go-eosio/pkg/ripemd160"
	"pgregory.net/rapid"
	"verif/ref"
)

// Few but large cases: megabytes of text and bytes, lists and maps with many more
// than 65536 entries, structs with hundreds of fields, values nested hundreds of
// levels deep, long chains of aliases and bases. They cost much more than the
// others, so their number does not grow with the scale.

// bigCheck runs prop n times, whatever the scale.
func bigCheck(t *testing.T, name string, n int, prop func(*rapid.T)) {
	if collect != nil {
		return
	}
	if thorough {
		n *= 10
	}
	checkN(t, name, n, prop)
}

// gMany gives a size up to max, more often than not a large one, and often next
// to a power of two.
func gMany(t *rapid.T, name string, max int) int {
	if max < 20 {
		return rapid.IntRange(2, 20).Draw(t, name)
	}
	switch rapid.IntRange(0, 5).Draw(t, name+".how") {
	case 0:
		k := rapid.IntRange(4, 24).Draw(t, name+".pow")
		for 1<<k > max-1 {
			k--
		}
		return 1<<k + rapid.IntRange(-1, 1).Draw(t, name+".off")
	case 1, 2:
		m := max >> rapid.IntRange(1, 10).Draw(t, name+".shift")
		if m < 4 {
			m = 4
		}
		return rapid.IntRange(m/2, m).Draw(t, name)
	}
	return rapid.IntRange(max/2, max).Draw(t, name)
}

func gBlock(t *rapid.T, name string, n int) []byte {
	b := make([]byte, n)
	expand(b, rapid.Uint64().Draw(t, name))
	return b
}

// A bigCase is a large value with its binary form.
type bigCase struct {
	kind string
	v    reflect.Value // a value of the type, not addressable perhaps
	wire []byte
	abi  *chain.Abi // nil when there is no ABI definition for it
	name string
	in   interface{} // what the ABI encoder takes and the ABI decoder gives
	n    int
}

func (c *bigCase) String() string { return fmt.Sprintf("%s (%d, %d bytes)", c.kind, c.n, len(c.wire)) }

// Types nested in themselves.
type Chain struct {
	V    uint8
	Next *Chain `eosio:"optional"`
}

type Tree struct {
	Kids []Tree
	V    uint8
}

type PtrTree struct {
	Kids []*PtrTree
	V    uint16
}

type Choice struct {
	A *Choices
	B *uint8
}

type Choices struct {
	C Choice `eosio:"variant"`
	V uint8
}

var bigKinds = []string{"string", "[]byte", "Bytes", "Blob", "list", "list", "list of structs", "array", "struct", "chain", "tree", "pointer tree", "web key", "web signature", "authorizations", "action data", "actions", "extensions"}

// sizes, in bytes and in entries, are far above 65536 for most of the cases
func gBig(t *rapid.T, kinds ...string) *bigCase {
	if len(kinds) == 0 {
		kinds = bigKinds
	}
	return gBigOf(t, kinds[rapid.IntRange(0, len(kinds)-1).Draw(t, "kind")], 1)
}

// gBigOf makes a case of the kind, of 1/less the usual size.
func gBigOf(t *rapid.T, kind string, less int) *bigCase {
	c := &bigCase{kind: kind}
	const maxBytes = 5 << 20
	set := func(v interface{}) { c.v = reflect.ValueOf(v) }
	builtin := func(name string, v interface{}) { c.abi, c.name, c.in = &chain.Abi{}, name, v }
	block := func(max int) []byte {
		c.n = gMany(t, "n", max/less)
		return gBlock(t, "block", c.n)
	}
	switch kind {
	case "string":
		b := block(maxBytes)
		set(string(b))
		builtin("string", string(b))
		c.wire = ref.W(func(w *ref.Wire) { w.Bytes(b) })
	case "[]byte", "Bytes", "Blob":
		b := block(maxBytes)
		switch kind {
		case "[]byte":
			set(b)
		case "Bytes":
			set(chain.Bytes(b))
			builtin("bytes", chain.Bytes(b))
		case "Blob":
			set(chain.Blob(b))
		}
		c.wire = ref.W(func(w *ref.Wire) { w.Bytes(b) })
	case "list", "array":
		elem := pick(t, "elem", gtOf(reflect.TypeOf(uint16(0))), gtOf(reflect.TypeOf("")), gtOf(reflect.TypeOf(true)), gtOf(reflect.TypeOf(chain.Name(0))), gtOf(reflect.TypeOf(chain.Asset{})), gtOf(reflect.TypeOf(uint(0))), gtOf(reflect.TypeOf(int(0))), gtOf(reflect.TypeOf([]byte{})), gtOf(reflect.TypeOf(new(uint32))), gtOf(reflect.TypeOf(float64(0))), gtOf(reflect.TypeOf(chain.Checksum256{})))
		x := &vgen{t: t, budget: 60}
		var evs []reflect.Value
		var ews [][]byte
		for i := 0; i < 5; i++ {
			ev, ew := x.value(elem, 2)
			evs, ews = append(evs, ev), append(ews, ew.flat())
		}
		var v reflect.Value
		if kind == "list" {
			c.n = gMany(t, "n", 150000/less)
			v = reflect.MakeSlice(reflect.SliceOf(elem.RT), c.n, c.n)
			c.wire = ref.W(func(w *ref.Wire) { w.Varuint(uint32(c.n)) })
		} else {
			c.n = gMany(t, "n", 5000/less)
			v = reflect.New(reflect.ArrayOf(c.n, elem.RT)).Elem()
		}
		seed := rapid.Uint64().Draw(t, "order")
		for i := 0; i < c.n; i++ {
			seed = seed*6364136223846793005 + 1442695040888963407
			k := int(seed>>33) % len(evs)
			v.Index(i).Set(evs[k])
			c.wire = append(c.wire, ews[k]...)
		}
		c.v = v
		c.kind = kind + " of " + elem.String()
		if kind == "list" {
			abiName := map[string]string{"uint16": "uint16", "string": "string", "bool": "bool", "chain.Name": "name", "chain.Asset": "asset", "uint": "varuint32", "int": "varint32", "float64": "float64", "chain.Checksum256": "checksum256"}[elem.RT.String()]
			if abiName != "" {
				l := make([]interface{}, c.n)
				for i := range l {
					l[i] = v.Index(i).Interface()
				}
				builtin(abiName+"[]", l)
			}
		}
	case "list of structs":
		c.n = gMany(t, "n", 60000/less)
		v := make([]Pair, c.n)
		g := gtOf(reflect.TypeOf(Pair{}))
		x := &vgen{t: t, budget: 60}
		ev, ew := x.value(g, 2)
		ev2, ew2 := x.value(g, 2)
		c.wire = ref.W(func(w *ref.Wire) { w.Varuint(uint32(c.n)) })
		for i := range v {
			if i%3 == 1 {
				v[i] = ev.Interface().(Pair)
				c.wire = append(c.wire, ew.flat()...)
			} else {
				v[i] = ev2.Interface().(Pair)
				c.wire = append(c.wire, ew2.flat()...)
			}
		}
		set(v)
	case "struct":
		c.n = gMany(t, "n", 700/less)
		types := []reflect.Type{reflect.TypeOf(uint8(0)), reflect.TypeOf(""), reflect.TypeOf(uint32(0)), reflect.TypeOf(chain.Name(0))}
		names := []string{"uint8", "string", "uint32", "name"}
		var fs []reflect.StructField
		def := chain.AbiStruct{Name: "big"}
		for i := 0; i < c.n; i++ {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: types[i%4]})
			def.Fields = append(def.Fields, chain.AbiField{Name: fmt.Sprintf("f%d", i), Type: names[i%4]})
		}
		v := reflect.New(reflect.StructOf(fs)).Elem()
		m := map[string]interface{}{}
		b := gBlock(t, "block", 8*c.n)
		w := &ref.Wire{}
		for i := 0; i < c.n; i++ {
			p := b[8*i : 8*i+8]
			switch i % 4 {
			case 0:
				v.Field(i).SetUint(uint64(p[0]))
				w.U8(p[0])
			case 1:
				s := string(p[:p[7]%7])
				v.Field(i).SetString(s)
				w.Str(s)
			case 2:
				v.Field(i).SetUint(uint64(p[0]) | uint64(p[3])<<24)
				w.U32(uint32(p[0]) | uint32(p[3])<<24)
			case 3:
				v.Field(i).SetUint(uint64(p[1])<<56 | uint64(p[2]))
				w.U64(uint64(p[1])<<56 | uint64(p[2]))
			}
			m[def.Fields[i].Name] = v.Field(i).Interface()
		}
		c.v, c.wire = v, w.B
		c.abi, c.name, c.in = &chain.Abi{Structs: []chain.AbiStruct{def}}, "big", m
	case "chain":
		c.n = gMany(t, "n", 1500/less)
		b := gBlock(t, "block", c.n)
		var v *Chain
		var m interface{}
		var tail []byte
		for i := c.n - 1; i >= 0; i-- {
			v = &Chain{V: b[i], Next: v}
			m = map[string]interface{}{"v": b[i], "next": m}
			if i == c.n-1 {
				tail = append(tail, 0)
			} else {
				tail = append(tail, b[i+1], 1)
			}
		}
		c.wire = []byte{b[0]}
		for i := len(tail) - 1; i >= 0; i-- {
			c.wire = append(c.wire, tail[i])
		}
		set(*v)
		c.abi = &chain.Abi{Structs: []chain.AbiStruct{{Name: "chain", Fields: []chain.AbiField{{Name: "v", Type: "uint8"}, {Name: "next", Type: "chain?"}}}}}
		c.name, c.in = "chain", m
	case "tree", "pointer tree":
		c.n = gMany(t, "n", 1200/less)
		b := gBlock(t, "block", c.n)
		var v Tree
		var pv PtrTree
		var m map[string]interface{}
		for i := c.n - 1; i >= 0; i-- {
			if i == c.n-1 {
				v, pv = Tree{V: b[i], Kids: []Tree{}}, PtrTree{V: uint16(b[i]), Kids: []*PtrTree{}}
				m = map[string]interface{}{"kids": []interface{}{}, "v": b[i]}
				continue
			}
			inner := pv
			v, pv = Tree{V: b[i], Kids: []Tree{v}}, PtrTree{V: uint16(b[i]), Kids: []*PtrTree{&inner}}
			m = map[string]interface{}{"kids": []interface{}{m}, "v": b[i]}
		}
		for i := 0; i < c.n-1; i++ {
			c.wire = append(c.wire, 1)
		}
		c.wire = append(c.wire, 0)
		for i := c.n - 1; i >= 0; i-- {
			c.wire = append(c.wire, b[i])
			if kind == "pointer tree" {
				c.wire = append(c.wire, 0)
			}
		}
		if kind == "pointer tree" {
			set(pv)
			break
		}
		set(v)
		c.abi = &chain.Abi{Structs: []chain.AbiStruct{{Name: "tree", Fields: []chain.AbiField{{Name: "kids", Type: "tree[]"}, {Name: "v", Type: "uint8"}}}}}
		c.name, c.in = "tree", m
	case "web key":
		rp := block(200000)
		d := ref.W(func(w *ref.Wire) { w.Raw(gBlock(t, "key", 34)); w.Bytes(rp) })
		v := chain.PublicKey{Type: chain.WA, Data: d}
		set(v)
		builtin("public_key", v)
		c.wire = append([]byte{2}, d...)
	case "web signature":
		b := block(200000)
		cut := rapid.IntRange(0, len(b)).Draw(t, "split")
		d := ref.W(func(w *ref.Wire) { w.Raw(gBlock(t, "sig", 65)); w.Bytes(b[:cut]); w.Bytes(b[cut:]) })
		v := chain.Signature{Type: chain.WA, Data: d}
		set(v)
		builtin("signature", v)
		c.wire = append([]byte{2}, d...)
	case "authorizations", "action data":
		b := gBlock(t, "names", 16)
		a := chain.Action{Account: chain.Name(b[0]), Name: chain.Name(b[1]) << 40, Authorization: []chain.PermissionLevel{}, Data: chain.Bytes{}}
		w := &ref.Wire{}
		w.U64(uint64(a.Account))
		w.U64(uint64(a.Name))
		if kind == "authorizations" {
			c.n = gMany(t, "n", 40000/less)
			for i := 0; i < c.n; i++ {
				a.Authorization = append(a.Authorization, chain.PermissionLevel{Actor: chain.Name(i * 7), Permission: chain.Name(uint64(b[i%16]) << 50)})
			}
		} else {
			a.Data = block(maxBytes)
		}
		w.Varuint(uint32(len(a.Authorization)))
		for _, p := range a.Authorization {
			w.U64(uint64(p.Actor))
			w.U64(uint64(p.Permission))
		}
		w.Bytes(a.Data)
		set(a)
		c.wire = w.B
	case "actions", "extensions":
		c.n = gMany(t, "n", 40000/less)
		tx := chain.Transaction{}
		b := gBlock(t, "block", 64)
		tx.Expiration = chain.TimePointSec(b[0])
		tx.RefBlockNum = uint16(b[1])
		w := &ref.Wire{}
		w.U32(uint32(b[0]))
		w.U16(uint16(b[1]))
		w.U32(0)
		w.Varuint(0)
		w.U8(0)
		w.Varuint(0)
		acts := func(n int) []chain.Action {
			w.Varuint(uint32(n))
			l := make([]chain.Action, n)
			for i := range l {
				l[i] = chain.Action{Account: chain.Name(i), Name: chain.Name(b[i%64]), Authorization: []chain.PermissionLevel{}, Data: append(chain.Bytes{}, b[:i%3]...)}
				w.U64(uint64(i))
				w.U64(uint64(b[i%64]))
				w.Varuint(0)
				w.Bytes(l[i].Data)
			}
			return l
		}
		free, ext := 0, 0
		n := c.n
		if kind == "extensions" {
			n, ext = 1, c.n
		} else if rapid.Bool().Draw(t, "free") {
			n, free = 1, c.n
		}
		tx.ContextFreeActions = acts(free)
		tx.Actions = acts(n)
		w.Varuint(uint32(ext))
		tx.Extensions = make([]chain.TransactionExtension, ext)
		for i := range tx.Extensions {
			tx.Extensions[i] = chain.TransactionExtension{Type: uint16(i), Data: append(chain.Bytes{}, b[:i%4]...)}
			w.U16(uint16(i))
			w.Bytes(tx.Extensions[i].Data)
		}
		set(tx)
		c.wire = w.B
	default:
		t.Fatalf("no kind %q", kind)
	}
	return c
}

// both ways, as a value and as a pointer
func bigRoundTrip(t *rapid.T, c *bigCase) {
	stats.Case("large: "+c.kind, true, fmt.Sprint(c.n, len(c.wire), hexs(c.wire[:min(len(c.wire), 40)])))
	p := reflect.New(c.v.Type())
	p.Elem().Set(c.v)
	for _, v := range []interface{}{c.v.Interface(), p.Interface()} {
		b, err := enc(v)
		if err != nil || !bytes.Equal(b, c.wire) {
			t.Fatalf("%s encodes to %d bytes, err %v, first difference at %d", c, len(b), err, firstDiff(b, c.wire))
		}
	}
	q := reflect.New(c.v.Type())
	left, err := dec(append(c.wire[:len(c.wire):len(c.wire)], 1, 2, 3), q.Interface())
	if err != nil || left != 3 || !same(q.Elem(), c.v) {
		t.Fatalf("%s decodes with err %v and %d left, equal %v", c, err, left, same(q.Elem(), c.v))
	}
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

func largeC01(t *testing.T) {
	bigCheck(t, "large", 40, func(t *rapid.T) {
		c := gBig(t, "string", "[]byte")
		bigRoundTrip(t, c)
		var w bytes.Buffer
		e := chain.NewEncoder(&w)
		var err error
		if s, ok := c.v.Interface().(string); ok {
			err = e.WriteString(s)
		} else if err = e.WriteVaruint(uint(c.v.Len())); err == nil {
			err = e.WriteBytes(c.v.Bytes())
		}
		if err != nil || !bytes.Equal(w.Bytes(), c.wire) {
			t.Fatalf("%s: the write methods give %d bytes, err %v", c, w.Len(), err)
		}
		d := chain.NewDecoder(bytes.NewReader(c.wire))
		if s, ok := c.v.Interface().(string); ok {
			if got, err := d.ReadString(); err != nil || got != s {
				t.Fatalf("%s: ReadString gives %d bytes, err %v", c, len(got), err)
			}
			return
		}
		n, err := d.ReadVaruint()
		if err != nil || int(n) != c.v.Len() {
			t.Fatalf("%s: count %d, err %v", c, n, err)
		}
		if n, got, err := d.ReadBytes(int(n)); err != nil || n != c.v.Len() || !bytes.Equal(got, c.v.Bytes()) {
			t.Fatalf("%s: ReadBytes gives %d, %d bytes, err %v", c, n, len(got), err)
		}
	})
}

func largeC02(t *testing.T) {
	bigCheck(t, "large", 48, func(t *rapid.T) { bigRoundTrip(t, gBig(t, "Bytes", "Blob", "web key", "web signature")) })
}

func largeC03(t *testing.T) {
	bigCheck(t, "large", 48, func(t *rapid.T) {
		c := gBig(t, "authorizations", "action data", "actions", "extensions")
		bigRoundTrip(t, c)
		if a, ok := c.v.Interface().(chain.Action); ok {
			if d := a.Digest(); d != chain.Checksum256(ref.SHA256(c.wire)) {
				t.Fatalf("%s: digest %s", c, d)
			}
		}
	})
}

func largeC04(t *testing.T) {
	bigCheck(t, "large", 72, func(t *rapid.T) {
		bigRoundTrip(t, gBig(t, "list", "list", "list of structs", "array", "struct", "chain", "tree", "pointer tree"))
	})
	bigCheck(t, "huge maps", 16, func(t *rapid.T) {
		n := gMany(t, "n", 90000)
		base := rapid.Uint32().Draw(t, "base") | 1
		v := make(map[uint32]string, n)
		in := ref.W(func(y *ref.Wire) { y.Varuint(uint32(n)) })
		for i := 0; i < n; i++ {
			key := uint32(i) * base
			s := "abc"[:i%4]
			v[key] = s
			in = append(in, byte(key), byte(key>>8), byte(key>>16), byte(key>>24), byte(len(s)))
			in = append(in, s...)
		}
		stats.Case("large: map", true, fmt.Sprint(n, base))
		for _, b := range [][]byte{in, nil} {
			if b == nil {
				var err error
				if b, err = enc(v); err != nil || len(b) != len(in) {
					t.Fatalf("map of %d encodes to %d bytes, err %v, want %d", n, len(b), err, len(in))
				}
			}
			var got map[uint32]string
			if left, err := dec(b, &got); err != nil || left != 0 || !reflect.DeepEqual(got, v) {
				t.Fatalf("map of %d decodes with err %v, %d left, %d entries", n, err, left, len(got))
			}
		}
	})
	bigCheck(t, "deep variants", 16, func(t *rapid.T) {
		n := gMany(t, "n", 800)
		b := gBlock(t, "block", n+1)
		var v Choices
		for i := 0; i <= n; i++ {
			if i == 0 {
				v = Choices{C: Choice{B: &b[n]}, V: b[0]}
			} else {
				inner := v
				v = Choices{C: Choice{A: &inner}, V: b[i%n]}
			}
		}
		in := append(bytes.Repeat([]byte{0}, n), 1, b[n])
		for i := 0; i <= n; i++ {
			if i == 0 {
				in = append(in, b[0])
			} else {
				in = append(in, b[i%n])
			}
		}
		stats.Case("large: nested variants", true, fmt.Sprint(n, hexs(b[:min(len(b), 8)])))
		var got Choices
		if left, err := dec(in, &got); err != nil || left != 0 || !sameI(got, v) {
			t.Fatalf("variants nested %d levels decode with err %v, %d left", n, err, left)
		}
	})
}

func largeC05(t *testing.T) {
	bigCheck(t, "large", 90, func(t *rapid.T) {
		kind := bigKinds[rapid.IntRange(0, len(bigKinds)-1).Draw(t, "kind")]
		if kind == "struct" || kind == "array" {
			kind = "list"
		}
		c := gBigOf(t, kind, pick(t, "less", 1, 1, 3, 20))
		p := reflect.New(c.v.Type())
		how := ""
		if p.Elem().Kind() == reflect.Slice && rapid.IntRange(0, 3).Draw(t, "list") > 0 {
			// a used list that is shorter, longer, or just as long
			n := c.n + pick(t, "more", 1, 2, -1, rapid.IntRange(-3000, 3000).Draw(t, "some"), 0)
			if chance(t, "any", 3) || n < 0 {
				n = gMany(t, "old", 100000)
			}
			old := reflect.MakeSlice(c.v.Type(), n, n+rapid.IntRange(0, 1).Draw(t, "spare")*(n/3))
			if rapid.Bool().Draw(t, "filled") && old.Type().Elem().Kind() != reflect.Ptr {
				for i := 0; i < n && c.v.Len() > 0; i++ {
					old.Index(i).Set(c.v.Index((i + 1) % c.v.Len()))
				}
			}
			p.Elem().Set(old)
			how = fmt.Sprint("list of ", n)
		} else {
			o := gBigOf(t, kind, pick(t, "less2", 1, 3, 20))
			if o.v.Type() == c.v.Type() {
				if _, err := dec(o.wire, p.Interface()); err != nil {
					t.Fatalf("%s does not decode: %v", o, err)
				}
				how = fmt.Sprint("used by ", o)
			}
		}
		stats.Case("large: "+c.kind, how != "", fmt.Sprint(c, how))
		if left, err := dec(c.wire, p.Interface()); err != nil || left != 0 || !same(p.Elem(), c.v) {
			t.Fatalf("%s decodes into a variable (%s) with err %v, %d left, and differs from a fresh one", c, how, err, left)
		}
	})
	bigCheck(t, "wide variants", 40, func(t *rapid.T) {
		// more alternatives than fit in a byte or in one byte of a varuint32
		n := pick(t, "alternatives", 100, 128, 129, 256, 257, 300, 400, 520, 600)
		var fs []reflect.StructField
		for i := 0; i < n; i++ {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf((*uint16)(nil))})
		}
		outer := reflect.StructOf([]reflect.StructField{
			{Name: "V", Type: reflect.StructOf(fs), Tag: `eosio:"variant"`}, {Name: "B", Type: reflect.TypeOf(uint8(0))}})
		p := reflect.New(outer)
		fill := rapid.Bool().Draw(t, "filled")
		if fill { // all alternatives set, as no decode leaves it
			for i := 0; i < n; i++ {
				p.Elem().Field(0).Field(i).Set(reflect.New(reflect.TypeOf(uint16(0))))
			}
		}
		var last int
		how := fmt.Sprint(n, " alternatives")
		for k := rapid.IntRange(1, 6).Draw(t, "decodes"); k > 0; k-- {
			i := rapid.IntRange(0, n-1).Draw(t, "choice")
			if chance(t, "related", 2) && last > 0 {
				i = pick(t, "near", last&0xff, (last+256)%n, (last+128)%n, last&0x7f, n-1, (last+1)%n)
			}
			last = i
			x := uint16(rapid.Uint32().Draw(t, "v"))
			in := ref.W(func(w *ref.Wire) { w.Varuint(uint32(i)); w.Raw([]byte{byte(x), byte(x >> 8), 7}) })
			how += fmt.Sprint(", ", i)
			left, err := dec(in, p.Interface())
			if err != nil || left != 0 || p.Elem().Field(1).Uint() != 7 {
				t.Fatalf("variant with %s: err %v, %d left", how, err, left)
			}
			for j := 0; j < n; j++ {
				f := p.Elem().Field(0).Field(j)
				if f.IsNil() == (j == i) || j == i && uint16(f.Elem().Uint()) != x {
					t.Fatalf("variant with %s: alternative %d nil %v", how, j, f.IsNil())
				}
			}
		}
		stats.Case("large: variants", true, how)
		for _, i := range []int{n, n + 1, n + 128, n + 256, n + 65536, 1 << 31, 1<<32 - 1} {
			in := ref.W(func(w *ref.Wire) { w.Varuint(uint32(i)); w.Raw([]byte{1, 2, 7}) })
			if _, err := dec(in, p.Interface()); err == nil {
				t.Fatalf("variant with %d alternatives accepts index %d", n, i)
			}
		}
	})
}

func largeC06(t *testing.T) {
	bigCheck(t, "large", 32, func(t *rapid.T) {
		var cs []*bigCase
		var w bytes.Buffer
		var all []byte
		e := chain.NewEncoder(&w)
		for i, n := 0, rapid.IntRange(2, 4).Draw(t, "values"); i < n; i++ {
			c := gBig(t)
			cs = append(cs, c)
			all = append(all, c.wire...)
			if err := e.Encode(c.v.Interface()); err != nil {
				t.Fatalf("%s does not encode: %v", c, err)
			}
		}
		if !bytes.Equal(w.Bytes(), all) {
			t.Fatalf("the stream of %v has %d bytes, want %d, first difference at %d", cs, w.Len(), len(all), firstDiff(w.Bytes(), all))
		}
		size := rapid.IntRange(500, 100000).Draw(t, "chunk")
		r := &chunkReader{data: all, sizes: []int{size, 1, size / 3}, eofWithData: rapid.Bool().Draw(t, "eof")}
		d := chain.NewDecoder(r)
		stats.Case("large: streams", true, fmt.Sprint(cs, size))
		for _, c := range cs {
			p := reflect.New(c.v.Type())
			if err := d.Decode(p.Interface()); err != nil || !same(p.Elem(), c.v) {
				t.Fatalf("%s out of a stream of %v in chunks of %d: err %v", c, cs, size, err)
			}
		}
		if _, err := d.ReadByte(); err != io.EOF {
			t.Fatalf("after %v: %v", cs, err)
		}
	})
}

func largeC07(t *testing.T) {
	bigCheck(t, "large", 40, func(t *rapid.T) {
		c := gBig(t)
		n := len(c.wire)
		for i := 0; i < 12; i++ {
			cut := pick(t, "cut", rapid.IntRange(0, n-1).Draw(t, "any"), n-1, n-2, n/2, rapid.IntRange(0, min(n-1, 20)).Draw(t, "first"), n-1-rapid.IntRange(0, min(n-1, 3000)).Draw(t, "last"))
			if i > 4 && n > 300000 {
				break
			}
			if cut < 0 {
				continue
			}
			stats.Case("large: "+c.kind, true, fmt.Sprint(c, cut))
			p := reflect.New(c.v.Type())
			if _, err := dec(c.wire[:cut], p.Interface()); err == nil {
				t.Fatalf("%s cut at %d decodes", c, cut)
			}
			if c.abi != nil {
				if _, _, err := abiDec(c.abi, c.name, c.wire[:cut]); err == nil {
					t.Fatalf("%s cut at %d decodes through the ABI", c, cut)
				}
			}
		}
	})
}

func largeC09(t *testing.T) {
	bigCheck(t, "large", 32, func(t *rapid.T) {
		c := gBig(t)
		n := len(c.wire)
		w := &faultWriter{failAt: -1, once: true}
		if err := chain.NewEncoder(w).Encode(c.v.Interface()); err != nil {
			t.Fatalf("%s does not encode: %v", c, err)
		}
		calls := w.calls
		for i := 0; i < 5; i++ {
			k := pick(t, "at", rapid.IntRange(0, n-1).Draw(t, "any"), n-1, n-1-rapid.IntRange(0, min(n-1, 3000)).Draw(t, "last"))
			r := &faultReader{data: c.wire, failAt: k, once: i%2 == 0}
			stats.Case("large: "+c.kind, true, fmt.Sprint(c, k))
			if err := chain.NewDecoder(r).Decode(reflect.New(c.v.Type()).Interface()); !errors.Is(err, errFault) {
				t.Fatalf("%s: the read at %d failed but the result is %v", c, k, err)
			}
			k = pick(t, "write", rapid.IntRange(0, calls-1).Draw(t, "anywrite"), calls-1)
			w := &faultWriter{failAt: k, once: i%2 == 0, part: i == 3}
			if err := chain.NewEncoder(w).Encode(c.v.Interface()); !errors.Is(err, errFault) {
				t.Fatalf("%s: write %d of %d failed but the result is %v", c, k, calls, err)
			}
			if c.abi != nil {
				r := &faultReader{data: c.wire, failAt: n - 1, once: i%2 == 0}
				if _, err := c.abi.Decode(r, c.name); !errors.Is(err, errFault) {
					t.Fatalf("%s: the read at %d failed but the result through the ABI is %v", c, n-1, err)
				}
			}
		}
	})
}

func bigABI(t *rapid.T, c *bigCase, label string) {
	stats.Case("large: "+label, true, fmt.Sprint(c, hexs(c.wire[:min(len(c.wire), 40)])))
	b, err := abiEnc(c.abi, c.name, c.in)
	if err != nil || !bytes.Equal(b, c.wire) {
		t.Fatalf("%s encodes through the ABI to %d bytes, err %v, first difference at %d", c, len(b), err, firstDiff(b, c.wire))
	}
	got, left, err := abiDec(c.abi, c.name, append(c.wire[:len(c.wire):len(c.wire)], 9))
	if err != nil || left != 1 || !sameI(got, c.in) {
		t.Fatalf("%s decodes through the ABI with err %v and %d left, equal %v", c, err, left, sameI(got, c.in))
	}
}

func largeC10(t *testing.T) {
	bigCheck(t, "large values", 64, func(t *rapid.T) {
		c := gBig(t, "string", "Bytes", "list", "list", "struct", "chain", "tree", "web key", "web signature")
		if c.abi != nil {
			bigABI(t, c, c.kind)
		}
	})
	bigCheck(t, "large definitions", 64, func(t *rapid.T) {
		c := &bigCase{abi: &chain.Abi{}}
		a := c.abi
		v := gU8(t, "v")
		c.in, c.wire = v, []byte{v}
		c.kind = pick(t, "kind", "aliases", "bases", "alternatives", "nested structs", "nested variants", "structs", "nested optionals")
		switch c.kind {
		case "aliases":
			c.n = gMany(t, "n", 400)
			last := "uint8"
			for i := 0; i < c.n; i++ {
				nm := fmt.Sprintf("t%d", i)
				a.Types = append(a.Types, chain.AbiType{NewTypeName: nm, Type: last})
				last = nm
			}
			c.name = last
		case "bases":
			c.n = gMany(t, "n", 400)
			m := map[string]interface{}{}
			c.in, c.wire = m, nil
			for i := 0; i < c.n; i++ {
				s := chain.AbiStruct{Name: fmt.Sprintf("s%d", i)}
				if i > 0 {
					s.Base = fmt.Sprintf("s%d", i-1)
				}
				if i%3 != 1 {
					f := fmt.Sprintf("f%d", i)
					s.Fields = []chain.AbiField{{Name: f, Type: "uint8"}}
					m[f] = byte(i) ^ v
					c.wire = append(c.wire, byte(i)^v)
				}
				a.Structs = append(a.Structs, s)
			}
			c.name = fmt.Sprintf("s%d", c.n-1)
		case "alternatives":
			c.n = gMany(t, "n", 2000)
			av := chain.AbiVariant{Name: "v"}
			for i := 0; i < c.n; i++ {
				nm := fmt.Sprintf("s%d", i)
				a.Structs = append(a.Structs, chain.AbiStruct{Name: nm, Fields: []chain.AbiField{{Name: "x", Type: "uint8"}}})
				av.Types = append(av.Types, nm)
			}
			a.Variants = []chain.AbiVariant{av}
			c.name = "v"
			k := pick(t, "which", c.n-1, c.n/2, rapid.IntRange(0, c.n-1).Draw(t, "any"))
			c.in = []interface{}{av.Types[k], map[string]interface{}{"x": v}}
			c.wire = ref.W(func(w *ref.Wire) { w.Varuint(uint32(k)); w.U8(v) })
		case "nested structs":
			c.n = gMany(t, "n", 500)
			last := "uint8"
			for i := 0; i < c.n; i++ {
				nm := fmt.Sprintf("s%d", i)
				a.Structs = append(a.Structs, chain.AbiStruct{Name: nm, Fields: []chain.AbiField{{Name: "x", Type: last}}})
				last = nm
				c.in = map[string]interface{}{"x": c.in}
			}
			c.name = last
		case "nested optionals":
			c.n = gMany(t, "n", 500)
			last := "uint8"
			for i := 0; i < c.n; i++ {
				nm := fmt.Sprintf("s%d", i)
				f := []string{"?", "[]", "[]?"}[i%3]
				a.Structs = append(a.Structs, chain.AbiStruct{Name: nm, Fields: []chain.AbiField{{Name: "x", Type: last + f}}})
				last = nm
				if i%3 == 0 {
					c.in = map[string]interface{}{"x": c.in}
				} else {
					c.in = map[string]interface{}{"x": []interface{}{c.in}}
				}
				c.wire = append([]byte{1}, c.wire...)
				if i%3 == 2 {
					c.wire = append([]byte{1}, c.wire...)
				}
			}
			c.name = last
		case "nested variants":
			c.n = gMany(t, "n", 500)
			last := "uint8"
			for i := 0; i < c.n; i++ {
				nm := fmt.Sprintf("v%d", i)
				a.Variants = append(a.Variants, chain.AbiVariant{Name: nm, Types: []string{"string", last}})
				c.in = []interface{}{last, c.in}
				c.wire = append([]byte{1}, c.wire...)
				last = nm
			}
			c.name = last
		case "structs":
			c.n = gMany(t, "n", 2000)
			s := chain.AbiStruct{Name: "top"}
			m := map[string]interface{}{}
			c.wire = nil
			for i := 0; i < c.n; i++ {
				nm := fmt.Sprintf("s%d", i)
				a.Structs = append(a.Structs, chain.AbiStruct{Name: nm, Fields: []chain.AbiField{{Name: "x", Type: "uint8"}}})
				s.Fields = append(s.Fields, chain.AbiField{Name: nm, Type: nm})
				m[nm] = map[string]interface{}{"x": byte(i) ^ v}
				c.wire = append(c.wire, byte(i)^v)
			}
			a.Structs = append(a.Structs, s)
			c.name, c.in = "top", m
		}
		if rapid.Bool().Draw(t, "rev") {
			rev(a.Types)
			rev(a.Structs)
			rev(a.Variants)
		}
		bigABI(t, c, c.kind)
	})
}

func largeC11(t *testing.T) {
	bigCheck(t, "large", 32, func(t *rapid.T) {
		// one wrong element far down a list
		n := gMany(t, "n", 100000)
		at := pick(t, "at", n-1, n/2, rapid.IntRange(0, n-1).Draw(t, "any"))
		l := make([]interface{}, n)
		for i := range l {
			l[i] = uint16(i)
		}
		l[at] = pick[interface{}](t, "wrong", "x", uint32(1), nil, int(1), uint8(1), []interface{}{uint16(1)})
		stats.Case("large: lists with one wrong element", true, fmt.Sprint(n, at))
		if _, err := abiEnc(&chain.Abi{}, "uint16[]", l); err == nil {
			t.Fatalf("a list of %d uint16 with %s at %d is encoded", n, show(l[at]), at)
		}
	})
	bigCheck(t, "many fields", 48, func(t *rapid.T) {
		c := gBigOf(t, "struct", 1)
		m := c.in.(map[string]interface{})
		i := pick(t, "at", c.n-1, c.n/2, rapid.IntRange(0, c.n-1).Draw(t, "any"))
		f := fmt.Sprintf("f%d", i)
		how := pick(t, "how", "missing", "nil", "wrong")
		switch how {
		case "missing":
			delete(m, f)
		case "nil":
			m[f] = nil
		case "wrong":
			m[f] = alien{1}
		}
		stats.Case("large: structs with one wrong field", true, fmt.Sprint(c.n, f, how))
		if _, err := abiEnc(c.abi, c.name, m); err == nil {
			t.Fatalf("%s is encoded although %s is %s", c, f, how)
		}
	})
}

func largeC12(t *testing.T) {
	bigCheck(t, "long cycles", 32, func(t *rapid.T) {
		n := gMany(t, "n", 3000)
		a := &chain.Abi{}
		kind := pick(t, "kind", "aliases", "bases", "fields", "variants")
		nm := func(i int) string { return fmt.Sprintf("n%d", i%n) }
		for i := 0; i < n; i++ {
			switch kind {
			case "aliases":
				a.Types = append(a.Types, chain.AbiType{NewTypeName: nm(i), Type: nm(i + 1)})
			case "bases":
				a.Structs = append(a.Structs, chain.AbiStruct{Name: nm(i), Base: nm(i + 1)})
			case "fields":
				a.Structs = append(a.Structs, chain.AbiStruct{Name: nm(i), Fields: []chain.AbiField{{Name: "x", Type: nm(i + 1)}}})
			case "variants":
				a.Variants = append(a.Variants, chain.AbiVariant{Name: nm(i), Types: []string{nm(i + 1)}})
			}
		}
		stats.Case("large: cycles of "+kind, true, fmt.Sprint(n))
		if msg, bad := noPanic(func() {
			_, _, err := abiDec(a, nm(0), make([]byte, 20))
			if err == nil && kind != "bases" {
				t.Fatalf("a cycle of %d %s decodes", n, kind)
			}
			_, _ = abiEnc(a, nm(0), map[string]interface{}{"x": map[string]interface{}{}})
			_, _ = abiEnc(a, nm(0), []interface{}{nm(1), []interface{}{}})
		}); bad {
			t.Fatalf("a cycle of %d %s panics: %s", n, kind, msg)
		}
	})
}

func largeC13(t *testing.T) {
	bigCheck(t, "large", 32, func(t *rapid.T) {
		n := gMany(t, "n", 2500)
		long := gMany(t, "long", 100000)
		a := chain.Abi{Version: "eosio::abi/1.1"}
		w := &ref.Wire{}
		w.Str(a.Version)
		list := func(f func(i int)) {
			w.Varuint(uint32(n))
			for i := 0; i < n; i++ {
				f(i)
			}
		}
		str := func(p string, i int) string {
			s := fmt.Sprint(p, i)
			if i == n-2 {
				s += strings.Repeat("é", long/2)
			}
			w.Str(s)
			return s
		}
		list(func(i int) { a.Types = append(a.Types, chain.AbiType{NewTypeName: str("t", i), Type: str("u", i)}) })
		list(func(i int) {
			s := chain.AbiStruct{Name: str("s", i), Base: str("b", i), Fields: []chain.AbiField{}}
			k := 0
			if i == n/2 {
				k = n
			}
			w.Varuint(uint32(k))
			for j := 0; j < k; j++ {
				s.Fields = append(s.Fields, chain.AbiField{Name: str("f", j), Type: str("g", j)})
			}
			a.Structs = append(a.Structs, s)
		})
		list(func(i int) {
			w.U64(uint64(i))
			a.Actions = append(a.Actions, chain.AbiAction{Name: chain.Name(i), Type: str("a", i), RicardianContract: str("r", i)})
		})
		list(func(i int) {
			w.U64(uint64(i))
			x := chain.AbiTable{Name: chain.Name(i), IndexType: str("i", i), KeyNames: []string{}, KeyTypes: []string{}}
			k := 0
			if i == n/2 {
				k = n
			}
			w.Varuint(uint32(k))
			for j := 0; j < k; j++ {
				x.KeyNames = append(x.KeyNames, str("k", j))
			}
			w.Varuint(uint32(k))
			for j := 0; j < k; j++ {
				x.KeyTypes = append(x.KeyTypes, str("l", j))
			}
			x.Type = str("t", i)
			a.Tables = append(a.Tables, x)
		})
		list(func(i int) {
			a.RicardianClauses = append(a.RicardianClauses, chain.AbiClause{Id: str("id", i), Body: str("body", i)})
		})
		w.Varuint(0)
		w.Varuint(0)
		list(func(i int) {
			x := chain.AbiVariant{Name: str("v", i), Types: []string{}}
			w.Varuint(2)
			x.Types = append(x.Types, str("x", i), str("y", i))
			a.Variants = append(a.Variants, x)
		})
		stats.Case("large: ABI definitions", true, fmt.Sprint(n, long))
		b, err := enc(a)
		if err != nil || !bytes.Equal(b, w.B) {
			t.Fatalf("an ABI with %d entries packs to %d bytes, err %v, want %d, first difference at %d", n, len(b), err, len(w.B), firstDiff(b, w.B))
		}
		var got, viaJSON chain.Abi
		if left, err := dec(w.B, &got); err != nil || left != 0 {
			t.Fatalf("an ABI with %d entries unpacks with err %v, %d left", n, err, left)
		}
		js, err := json.Marshal(a)
		if err == nil {
			err = json.Unmarshal(js, &viaJSON)
		}
		if err != nil {
			t.Fatalf("JSON: %v", err)
		}
		if b, err := enc(got); err != nil || !bytes.Equal(b, w.B) {
			t.Fatalf("an ABI with %d entries differs after packing", n)
		}
		if b, err := enc(viaJSON); err != nil || !bytes.Equal(b, w.B) {
			t.Fatalf("an ABI with %d entries differs after JSON", n)
		}
		for _, i := range []int{0, n / 2, n - 1, n - 2} {
			if x := a.GetAction(chain.Name(i)); x == nil || x.Name != chain.Name(i) {
				t.Fatalf("action %d of %d is not found", i, n)
			}
			if x := a.GetStruct(a.Structs[i].Name); x == nil || x.Base != a.Structs[i].Base {
				t.Fatalf("struct %d of %d is not found", i, n)
			}
			if x := a.GetVariant(a.Variants[i].Name); x == nil || x.Types[0] != a.Variants[i].Types[0] {
				t.Fatalf("variant %d of %d is not found", i, n)
			}
			if x := a.GetType(a.Types[i].NewTypeName); x == nil || x.Type != a.Types[i].Type {
				t.Fatalf("alias %d of %d is not found", i, n)
			}
		}
	})
}

func largeC18(t *testing.T) {
	bigCheck(t, "large", 8, func(t *rapid.T) {
		kind := pick(t, "kind", "web key", "web signature")
		c := gBigOf(t, kind, 20)
		stats.Case("large: "+c.kind, true, c.String())
		var text string
		var back interface{}
		var err error
		prefix := "PUB"
		if k, ok := c.v.Interface().(chain.PublicKey); ok {
			text = k.String()
			back, err = deref(chain.NewPublicKeyFromString(text))
		} else {
			s := c.v.Interface().(chain.Signature)
			prefix = "SIG"
			text = s.String()
			back, err = deref(chain.NewSignatureString(text))
		}
		if want := ref.KeyText(prefix, "WA", c.wire[1:]); text != want {
			t.Fatalf("%s is written as %d characters, want %d", c, len(text), len(want))
		}
		if err != nil || !sameI(back, c.v.Interface()) {
			t.Fatalf("%s does not come back from its text: %v", c, err)
		}
		i := rapid.IntRange(7, len(text)-1).Draw(t, "at")
		other := pick(t, "digit", "1", "2", "z", "A", "x", "9")
		if other == text[i:i+1] {
			return
		}
		bad := text[:i] + other + text[i+1:]
		if prefix == "PUB" {
			back, err = deref(chain.NewPublicKeyFromString(bad))
		} else {
			back, err = deref(chain.NewSignatureString(bad))
		}
		if err == nil {
			t.Fatalf("%s: text of %d characters with the one at %d changed is accepted", c, len(text), i)
		}
	})
}

func largeC19(t *testing.T) {
	bigCheck(t, "large", 12, func(t *rapid.T) {
		n := gMany(t, "n", 12000)
		b := gBlock(t, "block", n)
		for i := 0; i < n && i < rapid.IntRange(0, 3).Draw(t, "zeros")*n/4; i++ {
			b[i] = 0
		}
		stats.Case("large: base58", true, fmt.Sprint(n, hexs(b[n-min(n, 8):])))
		want := ref.Base58(b)
		if got := base58.Encode(b); got != want {
			t.Fatalf("%d bytes are encoded as %d characters, want %d", n, len(got), len(want))
		}
		if got := base58.Decode(want); !bytes.Equal(got, b) {
			t.Fatalf("%d characters decode to %d bytes, want %d", len(want), len(got), n)
		}
		sum := ref.W(func(w *ref.Wire) { w.Raw(b); h := ref.RIPEMD160(append(b[:n:n], "K1"...)); w.Raw(h[:4]) })
		if got := base58.CheckEncodeEosio(b, "K1"); got != ref.Base58(sum) {
			t.Fatalf("%d bytes check-encode to %d characters", n, len(got))
		}
		if got, err := base58.CheckDecodeEosio(ref.Base58(sum), "K1"); err != nil || !bytes.Equal(got, b) {
			t.Fatalf("%d bytes check-decode to %d, err %v", n, len(got), err)
		}
		sum[rapid.IntRange(0, len(sum)-1).Draw(t, "spoil")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		if got, err := base58.CheckDecodeEosio(ref.Base58(sum), "K1"); err == nil {
			t.Fatalf("%d bytes with a bit changed check-decode to %d", n, len(got))
		}
		i := rapid.IntRange(0, len(want)-1).Draw(t, "at")
		bad := want[:i] + "0" + want[i+1:]
		if got := base58.Decode(bad); len(got) != 0 {
			t.Fatalf("%d characters with a zero at %d decode to %d bytes", len(bad), i, len(got))
		}
	})
}

// base58Fast is the reference by means of math/big's own number texts.
func base58Fast(b []byte) string {
	const alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
	const digits = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
	zeros := len(b) - len(bytes.TrimLeft(b, "\x00"))
	out := []byte(strings.Repeat("1", zeros))
	if zeros == len(b) {
		return string(out)
	}
	for _, c := range []byte(new(big.Int).SetBytes(b).Text(58)) {
		out = append(out, alphabet[strings.IndexByte(digits, c)])
	}
	return string(out)
}

func hugeC19(t *testing.T) {
	bigCheck(t, "huge", 4, func(t *rapid.T) {
		n := gMany(t, "n", 70000)
		b := gBlock(t, "block", n)
		clear(b[:pick(t, "zeros", 0, 1, n/2, max(0, n-40), rapid.IntRange(0, n).Draw(t, "some"))])
		stats.Case("huge: base58", true, fmt.Sprint(n, hexs(b[n-min(n, 8):])))
		want := base58Fast(b)
		if got := base58.Encode(b); got != want {
			t.Fatalf("%d bytes are encoded as %d characters, want %d", n, len(got), len(want))
		}
		if got := base58.Decode(want); !bytes.Equal(got, b) {
			t.Fatalf("%d characters decode to %d bytes, want %d", len(want), len(got), n)
		}
	})
}

func largeC20(t *testing.T) {
	bigCheck(t, "long", 32, func(t *rapid.T) {
		n := gMany(t, "n", 9<<20)
		b := gBlock(t, "block", n)
		stats.Case("large: messages", true, fmt.Sprint(n, hexs(b[n-min(n, 8):])))
		want := ref.RIPEMD160(b)
		if got := chain.Checksum160Digest(b); got != chain.Checksum160(want) {
			t.Fatalf("Checksum160Digest of %d bytes is %s", n, got)
		}
		h := ripemd160.New()
		cut := rapid.IntRange(0, n).Draw(t, "cut")
		h.Write(b[:cut])
		h.Write(b[cut:])
		if got := h.Sum(nil); !bytes.Equal(got, want[:]) {
			t.Fatalf("RIPEMD-160 of %d bytes written in two parts of %d and %d is %x", n, cut, n-cut, got)
		}
		if got := chain.Checksum256Digest(b); got != chain.Checksum256(ref.SHA256(b)) {
			t.Fatalf("Checksum256Digest of %d bytes is %s", n, got)
		}
		if got := chain.Checksum512Digest(b); got != chain.Checksum512(ref.SHA512(b)) {
			t.Fatalf("Checksum512Digest of %d bytes is %s", n, got)
		}
	})
}

// text of large byte strings, and the same with something wrong far down
func largeText(t *testing.T, spoil bool) {
	bigCheck(t, "large", 32, func(t *rapid.T) {
		n := gMany(t, "n", 1<<20)
		b := gBlock(t, "block", n)
		blob := rapid.Bool().Draw(t, "blob")
		var v encoding.TextMarshaler = chain.Bytes(b)
		var p encoding.TextUnmarshaler = new(chain.Bytes)
		want := ref.Hex(b)
		if blob {
			v, p, want = chain.Blob(b), new(chain.Blob), ref.B64(b)
		}
		stats.Case("large: byte strings as text", true, fmt.Sprint(n, blob, spoil))
		if spoil {
			if len(want) < 8 {
				return
			}
			i := pick(t, "at", len(want)-5, len(want)/2, rapid.IntRange(0, len(want)-5).Draw(t, "any"))
			bad := want[:i] + pick(t, "with", "!", "", "\xff", "-", " ") + want[i+1:]
			if err := p.UnmarshalText([]byte(bad)); err == nil && (!blob || len(bad) == len(want)) {
				t.Fatalf("%d bytes as text with %q at %d are accepted", n, bad[i:i+1], i)
			}
			if l := reflect.ValueOf(p).Elem().Len(); l != 0 && !blob {
				t.Fatalf("refused text leaves %d bytes", l)
			}
			return
		}
		text, err := v.MarshalText()
		if err != nil || string(text) != want {
			t.Fatalf("%d bytes are written as %d characters, err %v, first difference at %d", n, len(text), err, firstDiff(text, []byte(want)))
		}
		js, err := json.Marshal(v)
		if err != nil || string(js) != `"`+want+`"` {
			t.Fatalf("%d bytes become JSON of %d characters, err %v", n, len(js), err)
		}
		if err := json.Unmarshal(js, p); err != nil || !sameI(reflect.ValueOf(p).Elem().Interface(), v) {
			t.Fatalf("%d bytes do not come back from JSON: %v", n, err)
		}
	})
}

func largeC28(t *testing.T) {
	bigCheck(t, "large", 40, func(t *rapid.T) {
		n := gMany(t, "n", 1<<18)
		old := gBlock(t, "old", n)
		keep := append([]byte{}, old...)
		blob := rapid.Bool().Draw(t, "blob")
		m := pick(t, "new", n, n, n-1, n+1, gMany(t, "m", 1<<18))
		b := gBlock(t, "block", m)
		text := ref.Hex(b)
		var p encoding.TextUnmarshaler = (*chain.Bytes)(&old)
		if blob {
			p, text = (*chain.Blob)(&old), ref.B64(b)
		}
		if len(text) < 8 {
			return
		}
		i := pick(t, "at", len(text)-5, len(text)/2, rapid.IntRange(0, len(text)-5).Draw(t, "any"))
		bad := text[:i] + "!" + text[i+1:]
		stats.Case("large: byte strings", true, fmt.Sprint(n, m, i, blob))
		var err error
		if rapid.Bool().Draw(t, "json") {
			err = json.Unmarshal([]byte(`"`+bad+`"`), p)
		} else {
			err = p.UnmarshalText([]byte(bad))
		}
		if err == nil {
			t.Fatalf("%d characters with one wrong are accepted", len(bad))
		}
		if !bytes.Equal(old, keep) {
			t.Fatalf("a variable of %d bytes changes when text for %d bytes is refused for the character at %d", n, m, i)
		}
	})
}

func largeC23(t *testing.T) {
	bigCheck(t, "large", 40, func(t *rapid.T) {
		// the bytes behind two decoded values and the input are all different ones
		n, m := gMany(t, "n", 1<<20), gMany(t, "m", 1<<20)
		in := ref.W(func(w *ref.Wire) { w.Bytes(gBlock(t, "a", n)); w.Bytes(gBlock(t, "b", m)) })
		keep := append([]byte{}, in...)
		rt := pick(t, "type", reflect.TypeOf(chain.Bytes{}), reflect.TypeOf(chain.Blob{}), reflect.TypeOf([]byte{}))
		a, b := reflect.New(rt), reflect.New(rt)
		var r io.Reader = bytes.NewReader(in)
		if rapid.Bool().Draw(t, "buffer") {
			r = bytes.NewBuffer(in)
		}
		d := chain.NewDecoder(r)
		if err := d.Decode(a.Interface()); err != nil {
			t.Fatalf("%v", err)
		}
		first := append([]byte{}, a.Elem().Bytes()...)
		if err := d.Decode(b.Interface()); err != nil {
			t.Fatalf("%v", err)
		}
		second := append([]byte{}, b.Elem().Bytes()...)
		stats.Case("large: byte strings", true, fmt.Sprint(n, m, rt))
		if !bytes.Equal(a.Elem().Bytes(), first) {
			t.Fatalf("decoding %d bytes changed %d decoded before", m, n)
		}
		for i := range in {
			in[i] ^= 0x55
		}
		if !bytes.Equal(a.Elem().Bytes(), first) || !bytes.Equal(b.Elem().Bytes(), second) {
			t.Fatalf("%d and %d bytes share memory with the input", n, m)
		}
		copy(in, keep)
		for i := range a.Elem().Bytes() {
			a.Elem().Bytes()[i] = 0
		}
		all := a.Elem().Bytes()
		all = all[:cap(all)]
		for i := range all {
			all[i] = 0
		}
		if !bytes.Equal(in, keep) || !bytes.Equal(b.Elem().Bytes(), second) {
			t.Fatalf("writing to %d decoded bytes changed something else", n)
		}
	})
}

// every element of a long list is offered to the hook
func largeC26(t *testing.T) {
	bigCheck(t, "large", 32, func(t *rapid.T) {
		n := gMany(t, "n", 80000)
		v := make([]MyU32, n)
		for i := range v {
			v[i] = MyU32(i * 3)
		}
		seen := 0
		var w bytes.Buffer
		e := abi.NewEncoder(&w, func(e *abi.Encoder, x interface{}) (bool, error) {
			if u, ok := x.(MyU32); ok {
				seen++
				return true, e.WriteUint16(uint16(u))
			}
			return false, nil
		})
		stats.Case("large: lists with a hook", true, fmt.Sprint(n))
		if err := e.Encode(v); err != nil || seen != n {
			t.Fatalf("the hook saw %d of %d elements, err %v", seen, n, err)
		}
		seen = 0
		d := abi.NewDecoder(&w, func(d *abi.Decoder, x interface{}) (bool, error) {
			if p, ok := x.(*MyU32); ok {
				u, err := d.ReadUint16()
				*p = MyU32(seen * 3)
				if err == nil && u != uint16(seen*3) {
					err = fmt.Errorf("element %d is %d", seen, u)
				}
				seen++
				return true, err
			}
			return false, nil
		})
		var got []MyU32
		if err := d.Decode(&got); err != nil || seen != n || !reflect.DeepEqual(got, v) {
			t.Fatalf("the decoder hook saw %d of %d elements, err %v", seen, n, err)
		}
	})
}

func largeC29(t *testing.T) {
	bigCheck(t, "large", 48, func(t *rapid.T) {
		c := gBig(t, "string", "Bytes", "list", "list", "struct", "chain", "tree", "web key", "web signature")
		if c.abi == nil {
			return
		}
		stats.Case("large: "+c.kind, true, c.String())
		a, err1 := enc(c.v.Interface())
		b, err2 := abiEnc(c.abi, c.name, c.in)
		if err1 != nil || err2 != nil || !bytes.Equal(a, b) {
			t.Fatalf("%s: %d bytes typed (%v), %d through the ABI (%v)", c, len(a), err1, len(b), err2)
		}
		cut := pick(t, "cut", len(a), len(a)-1, rapid.IntRange(0, len(a)).Draw(t, "any"))
		p := reflect.New(c.v.Type())
		_, err1 = dec(a[:cut], p.Interface())
		got, _, err2 := abiDec(c.abi, c.name, a[:cut])
		if (err1 == nil) != (err2 == nil) {
			t.Fatalf("%s cut at %d: %v typed, %v through the ABI", c, cut, err1, err2)
		}
		if err1 == nil && (!same(p.Elem(), c.v) || !sameI(got, c.in)) {
			t.Fatalf("%s: the decoders disagree", c)
		}
	})
}
