package props

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/greymass/go-eosio/pkg/chain"
	"pgregory.net/rapid"
)

// ---- C29: the typed and the ABI-driven codec agree --------------------------

// toABI writes an ABI definition for a Go type.
type toABI struct {
	t     *rapid.T
	abi   *chain.Abi
	names map[*GT]string
	based map[*GT]bool
	n     int
	fail  bool
	// extensions of the struct that are not in the data
	absent map[string]bool
}

var sameAs = map[string]string{"MyU64": "uint64", "MyU32": "uint32", "MyI64": "int64", "MyI32": "int32", "Blob": "bytes", "BlockNum": "uint32", "[]byte": "bytes"}

// the structs of the chain package, field by field
var chainStructs = map[reflect.Type]*GT{}

func setChainStructs() {
	for _, v := range []interface{}{chain.PermissionLevel{}, chain.Action{}, chain.TransactionHeader{}, chain.TransactionExtension{}, chain.Transaction{}} {
		rt := reflect.TypeOf(v)
		g := &GT{K: kStruct, RT: rt}
		for i := 0; i < rt.NumField(); i++ {
			g.Fields = append(g.Fields, GF{Name: rt.Field(i).Name, T: gtOf(rt.Field(i).Type)})
		}
		chainStructs[rt] = g
	}
}

func strip(g *GT) *GT {
	for g.K == kPtr {
		g = g.Elem
	}
	if s := chainStructs[g.RT]; s != nil {
		return s
	}
	return g
}

func (a *toABI) fresh(what string) string {
	a.n++
	return fmt.Sprintf("%s%d", what, a.n)
}

func (a *toABI) field(g *GT, f GF) string { return a.names[g] + "_" + f.Name }

// name gives the ABI type of g.
func (a *toABI) name(g *GT) string {
	g = strip(g)
	if n, ok := a.names[g]; ok {
		return n
	}
	switch g.K {
	case kLeaf:
		n := g.Leaf.name
		if s, ok := sameAs[n]; ok {
			n = s
		} else if s, ok := builtinText[n]; ok {
			n = s
		} else if !isBuiltinName(n) {
			a.fail = true
		}
		return n
	case kSlice:
		e := strip(g.Elem)
		n := a.name(e)
		if e.K == kSlice {
			alias := a.fresh("list")
			a.abi.Types = append(a.abi.Types, chain.AbiType{NewTypeName: alias, Type: n})
			n = alias
		}
		return n + "[]"
	case kArray:
		if g.N > 300 {
			a.fail = true
		}
		nm := a.fresh("array")
		a.names[g] = nm
		s := chain.AbiStruct{Name: nm}
		e := a.name(g.Elem)
		for i := 0; i < g.N; i++ {
			s.Fields = append(s.Fields, chain.AbiField{Name: fmt.Sprint(i), Type: e})
		}
		a.abi.Structs = append(a.abi.Structs, s)
		return nm
	case kStruct:
		nm := a.fresh("struct")
		a.names[g] = nm
		s := chain.AbiStruct{Name: nm}
		for i, f := range g.Fields {
			var tn string
			if f.Tag == "variant" {
				tn = a.variant(strip(f.T))
			} else {
				tn = a.name(f.T)
			}
			switch f.Tag {
			case "optional":
				if f.T.K != kPtr { // present and zero is like absent
					a.fail = true
				}
				tn += "?"
			case "extension":
				tn += "$"
			case "":
				// what comes first may as well be the base
				if st := strip(f.T); i == 0 && st.K == kStruct && f.T.K == kStruct && rapid.Bool().Draw(a.t, "base") {
					s.Base = tn
					a.based[g] = true
					continue
				}
			}
			s.Fields = append(s.Fields, chain.AbiField{Name: a.field(g, f), Type: tn})
		}
		a.abi.Structs = append(a.abi.Structs, s)
		return nm
	}
	a.fail = true
	return ""
}

func (a *toABI) variant(g *GT) string {
	if n, ok := a.names[g]; ok {
		return n
	}
	nm := a.fresh("variant")
	a.names[g] = nm
	v := chain.AbiVariant{Name: nm}
	for _, f := range g.Fields {
		alt := a.fresh("alt")
		a.abi.Types = append(a.abi.Types, chain.AbiType{NewTypeName: alt, Type: a.name(f.T)})
		v.Types = append(v.Types, alt)
	}
	a.abi.Variants = append(a.abi.Variants, v)
	return nm
}

// dyn gives what the ABI codec makes of v, a value of type g.
func (a *toABI) dyn(g *GT, v reflect.Value) interface{} {
	for g.K == kPtr {
		g, v = g.Elem, v.Elem()
	}
	g = strip(g)
	switch g.K {
	case kLeaf:
		switch x := v.Interface().(type) {
		case uint64:
			return chain.Uint64(x)
		case MyU64:
			return chain.Uint64(x)
		case MyU32:
			return uint32(x)
		case MyI64:
			return int64(x)
		case MyI32:
			return int32(x)
		case chain.BlockNum:
			return uint32(x)
		case chain.Blob:
			return chain.Bytes(x)
		case []byte:
			return chain.Bytes(x)
		default:
			return x
		}
	case kSlice:
		out := make([]interface{}, v.Len())
		for i := range out {
			out[i] = a.dyn(g.Elem, v.Index(i))
		}
		return out
	case kArray:
		out := map[string]interface{}{}
		for i := 0; i < g.N; i++ {
			out[fmt.Sprint(i)] = a.dyn(g.Elem, v.Index(i))
		}
		return out
	}
	out := map[string]interface{}{}
	for i, f := range g.Fields {
		fv := v.Field(i)
		switch {
		case i == 0 && a.based[g]:
			for k, x := range a.dyn(f.T, fv).(map[string]interface{}) {
				out[k] = x
			}
		case f.Tag == "optional" && fv.IsZero():
			out[a.field(g, f)] = nil
		case a.absent[a.field(g, f)]:
			// not there
		case f.Tag == "variant":
			vg, vv := f.T, fv
			for vg.K == kPtr {
				vg, vv = vg.Elem, vv.Elem()
			}
			for j, alt := range vg.Fields {
				if !vv.Field(j).IsZero() {
					out[a.field(g, f)] = []interface{}{a.altName(vg, j), a.dyn(alt.T, vv.Field(j))}
				}
			}
		default:
			out[a.field(g, f)] = a.dyn(f.T, fv)
		}
	}
	return out
}

func (a *toABI) altName(g *GT, j int) string {
	for _, v := range a.abi.Variants {
		if v.Name == a.names[g] {
			return v.Types[j]
		}
	}
	return ""
}

func TestC29(t *testing.T) {
	largeC29(t)
	setChainStructs()
	describe := func(t *rapid.T, g *GT) (*toABI, string) {
		a := &toABI{t: t, abi: &chain.Abi{Version: "eosio::abi/1.2"}, names: map[*GT]string{}, based: map[*GT]bool{}}
		n := a.name(g)
		if rapid.Bool().Draw(t, "order") {
			rev(a.abi.Structs)
			rev(a.abi.Types)
		}
		return a, n
	}
	check(t, "agree", 12000, func(t *rapid.T) {
		noCustom = true
		defer func() { noCustom = false }()
		variants := rapid.Bool().Draw(t, "variants")
		g, v, w, x := gGoValue(t, 3, gOpts{variants: variants, extensions: true})
		a, n := describe(t, g)
		wire := w.flat()
		if a.fail || len(wire) > 100000 {
			return
		}
		key := keyOf(g, wire)
		stats.Case("typed and dynamic", x.interest, key)
		in := a.dyn(g, v)
		db, err := abiEnc(a.abi, n, in)
		if err != nil {
			t.Fatalf("%s: the ABI codec does not encode %s: %v", g, show(in), err)
		}
		if !variants { // there is no typed encoder for those
			tb, err := enc(v.Interface())
			if err != nil || string(tb) != string(db) {
				t.Fatalf("%s: %s encodes to %s, %v, and through the ABI to %s", g, show(v.Interface()), hexs(tb), err, hexs(db))
			}
		} else if string(db) != string(wire) {
			t.Fatalf("%s: %s encodes through the ABI to %s, want %s", g, show(v.Interface()), hexs(db), hexs(wire))
		}
		// both decoders, on the same bytes, on fewer, on others
		data := append(append([]byte{}, wire...), gFill(t, "tail", pick(t, "ntail", 0, 0, 1, 3))...)
		how := "intact"
		switch rapid.IntRange(0, 3).Draw(t, "how") {
		case 1:
			how = "cut"
			data = data[:rapid.IntRange(0, len(data)).Draw(t, "cut")]
		case 2, 3:
			how = "altered"
			for k := rapid.IntRange(1, 3).Draw(t, "edits"); k > 0 && len(data) > 0; k-- {
				i := rapid.IntRange(0, len(data)-1).Draw(t, "at")
				data[i] = gU8(t, "byte")
			}
		}
		p := reflect.New(g.RT)
		var left, dleft int
		var terr, derr error
		var out interface{}
		if msg, bad := noPanic(func() {
			left, terr = dec(data, p.Interface())
			out, dleft, derr = abiDec(a.abi, n, data)
		}); bad {
			t.Fatalf("%s: decoding %s panics: %s", g, hexs(data), msg)
		}
		stats.Case("decoding "+how, len(data) > 0, key+hexs(data))
		if (terr == nil) != (derr == nil) {
			t.Fatalf("%s: the codecs disagree about %s (%s): typed %v, ABI %v; %s", g, hexs(data), how, terr, derr, show(*a.abi))
		}
		if terr != nil {
			stats.Count("refused by both")
			return
		}
		stats.Count("accepted by both: " + how)
		if left != dleft {
			t.Fatalf("%s: of %s the typed decoder leaves %d bytes, the ABI decoder %d", g, hexs(data), left, dleft)
		}
		a.absent = map[string]bool{}
		if o, ok := out.(map[string]interface{}); ok {
			for i, f := range strip(g).Fields {
				if _, there := o[a.field(strip(g), f)]; f.Tag == "extension" && !there {
					if !p.Elem().Field(i).IsZero() {
						t.Fatalf("%s: %s gives %s, and %s through the ABI", g, hexs(data), show(p.Elem().Interface()), show(out))
					}
					a.absent[a.field(strip(g), f)] = true
				}
			}
		}
		want := a.dyn(g, p.Elem())
		if !sameI(want, out) {
			t.Fatalf("%s: %s decodes to %s, and through the ABI to %s", g, hexs(data), show(p.Elem().Interface()), show(out))
		}
	})
}
