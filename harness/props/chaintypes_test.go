package props

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/greymass/go-eosio/pkg/chain"
	"pgregory.net/rapid"

	"verif/ref"
)

// A CV is a generated value together with what the reference model says about it.
type CV struct {
	V        interface{} // the value, not a pointer
	Wire     []byte      // EOSIO binary form
	JSON     string      // EOSIO JSON form, "" if the value has no faithful text
	ABI      string      // name of the ABI builtin, "" if none
	Name     string      // name of the Go type
	Interest bool        // not the zero value or another dull one
}

type cvGen struct {
	name string
	gen  func(t *rapid.T) CV
}

func q(s string) string { return `"` + s + `"` }

func le(v uint64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v >> (8 * i))
	}
	return b
}

func keyName(k chain.KeyType) string {
	switch k {
	case 0:
		return "K1"
	case 1:
		return "R1"
	}
	return "WA"
}

// gSymbolParts gives decimals and code of a valid symbol.
func gSymbolParts(t *rapid.T, name string) (int, string) {
	return rapid.IntRange(0, 18).Draw(t, name+".dec"), gCode(t, name+".code")
}

func gKeyData(t *rapid.T, kt chain.KeyType) []byte {
	if kt == 2 {
		d := gFill(t, "key", 33)
		w := &ref.Wire{B: d}
		w.U8(gU8(t, "presence"))
		w.Bytes(gBytes(t, "rpid", 20000))
		return w.B
	}
	d := gFill(t, "key", 33)
	if rapid.Bool().Draw(t, "point") {
		d[0] = 2 + d[0]&1
	}
	return d
}

func gSigData(t *rapid.T, kt chain.KeyType) []byte {
	d := gFill(t, "sig", 65)
	if kt == 2 {
		w := &ref.Wire{B: d}
		w.Bytes(gBytes(t, "authdata", 20000))
		w.Bytes(gBytes(t, "clientjson", 20000))
		return w.B
	}
	return d
}

func gKeyType(t *rapid.T) chain.KeyType {
	return chain.KeyType(rapid.IntRange(0, 2).Draw(t, "keytype"))
}

func gName(t *rapid.T, name string) chain.Name {
	switch rapid.IntRange(0, 9).Draw(t, name+".how") {
	case 9:
		if v, ok := ref.NameValue(dStr(t, name)); ok {
			return chain.Name(v)
		}
	case 0, 8:
		return chain.Name(gU64(t, name))
	case 1, 7:
		return chain.Name(rapid.Uint64().Draw(t, name))
	}
	n := rapid.IntRange(0, 13).Draw(t, name+".len")
	var v uint64
	for i := 0; i < 12; i++ {
		d := 0
		if i < n {
			d = rapid.IntRange(0, 31).Draw(t, name+".d")
		}
		v = v*32 + uint64(d)
	}
	d := 0
	if n > 12 {
		d = rapid.IntRange(0, 15).Draw(t, name+".d13")
	}
	return chain.Name(v*16 + uint64(d))
}

func cvName(t *rapid.T) CV {
	n := gName(t, "name")
	return CV{V: n, Wire: le(uint64(n), 8), JSON: q(ref.NameText(uint64(n))), ABI: "name", Interest: n != 0}
}

func gPermLevel(t *rapid.T) (chain.PermissionLevel, []byte, string) {
	a, p := gName(t, "actor"), gName(t, "perm")
	return chain.PermissionLevel{Actor: a, Permission: p},
		ref.Cat(le(uint64(a), 8), le(uint64(p), 8)),
		`{"actor":` + q(ref.NameText(uint64(a))) + `,"permission":` + q(ref.NameText(uint64(p))) + `}`
}

func gAction(t *rapid.T) (chain.Action, []byte, string) {
	acc, name := gName(t, "account"), gName(t, "actname")
	n := gLen(t, "nauth", 300)
	if n > 20 && !chance(t, "manyauth", 6) {
		n %= 4
	}
	act := chain.Action{Account: acc, Name: name, Authorization: []chain.PermissionLevel{}}
	w := &ref.Wire{}
	w.U64(uint64(acc))
	w.U64(uint64(name))
	w.Varuint(uint32(n))
	js := ""
	type level struct {
		pl chain.PermissionLevel
		w  []byte
		js string
	}
	var pool []level
	for i := 0; i < n; i++ {
		j := i
		if i < 6 {
			pl, pw, pj := gPermLevel(t)
			pool = append(pool, level{pl, pw, pj})
		} else {
			j = mixer(uint64(n), uint64(i), len(pool))
		}
		act.Authorization = append(act.Authorization, pool[j].pl)
		w.Raw(pool[j].w)
		if i > 0 {
			js += ","
		}
		js += pool[j].js
	}
	data := gBytes(t, "data", 70000)
	act.Data = data
	w.Bytes(data)
	return act, w.B, `{"account":` + q(ref.NameText(uint64(acc))) + `,"name":` + q(ref.NameText(uint64(name))) +
		`,"authorization":[` + js + `],"data":` + q(ref.Hex(data)) + `}`
}

func secText(v uint32) string {
	s, _ := ref.UTCText(int64(v)*1000000, 0)
	return s
}

func gHeader(t *rapid.T) (chain.TransactionHeader, []byte, string) {
	h := chain.TransactionHeader{
		Expiration:       chain.TimePointSec(gU32(t, "exp")),
		RefBlockNum:      gU16(t, "rbn"),
		RefBlockPrefix:   gU32(t, "rbp"),
		MaxNetUsageWords: uint(gVaru(t, "net")),
		MaxCpuUsageMs:    gU8(t, "cpu"),
		DelaySec:         uint(gVaru(t, "delay")),
	}
	w := &ref.Wire{}
	w.U32(uint32(h.Expiration))
	w.U16(h.RefBlockNum)
	w.U32(h.RefBlockPrefix)
	w.Varuint(uint32(h.MaxNetUsageWords))
	w.U8(h.MaxCpuUsageMs)
	w.Varuint(uint32(h.DelaySec))
	js := fmt.Sprintf(`"expiration":"%s","ref_block_num":%d,"ref_block_prefix":%d,"max_net_usage_words":%d,"max_cpu_usage_ms":%d,"delay_sec":%d`,
		secText(uint32(h.Expiration)), h.RefBlockNum, h.RefBlockPrefix, h.MaxNetUsageWords, h.MaxCpuUsageMs, h.DelaySec)
	return h, w.B, js
}

func gExt(t *rapid.T) (chain.TransactionExtension, []byte, string) {
	typ, data := gU16(t, "exttype"), gBytes(t, "extdata", 70000)
	w := &ref.Wire{}
	w.U16(typ)
	w.Bytes(data)
	return chain.TransactionExtension{Type: typ, Data: data}, w.B, fmt.Sprintf(`{"type":%d,"data":"%s"}`, typ, ref.Hex(data))
}

// gCount is a list length that sometimes passes 127.
func gCount(t *rapid.T, name string) int {
	if chance(t, name+".many", 12) {
		return pick(t, name+".edge", 127, 128, 129, 200, 256, 300, dLen(t, name, 400))
	}
	return rapid.IntRange(0, 3).Draw(t, name)
}

func gTransaction(t *rapid.T) (chain.Transaction, []byte, string) {
	h, wire, hj := gHeader(t)
	var js strings.Builder
	js.WriteString("{" + hj)
	tx := chain.Transaction{TransactionHeader: h, ContextFreeActions: []chain.Action{}, Actions: []chain.Action{}, Extensions: []chain.TransactionExtension{}}
	w := &ref.Wire{B: wire}
	var as []chain.Action
	var es []chain.TransactionExtension
	list := func(key string, n int, gen func() ([]byte, string), add func(j int)) {
		as, es = nil, nil
		w.Varuint(uint32(n))
		js.WriteString(`,"` + key + `":[`)
		var ws [][]byte
		var jss []string
		for i := 0; i < n; i++ {
			j := i
			if i < 3 {
				aw, aj := gen()
				ws, jss = append(ws, aw), append(jss, aj)
			} else {
				j = mixer(uint64(n), uint64(i), len(ws))
			}
			add(j)
			w.Raw(ws[j])
			if i > 0 {
				js.WriteString(",")
			}
			js.WriteString(jss[j])
		}
		js.WriteString("]")
	}
	genA := func() (aw []byte, aj string) {
		a, aw, aj := gAction(t)
		as = append(as, a)
		return aw, aj
	}
	genE := func() (ew []byte, ej string) {
		e, ew, ej := gExt(t)
		es = append(es, e)
		return ew, ej
	}
	list("context_free_actions", gCount(t, "ncfa"), genA, func(j int) { tx.ContextFreeActions = append(tx.ContextFreeActions, as[j]) })
	list("actions", gCount(t, "nact"), genA, func(j int) { tx.Actions = append(tx.Actions, as[j]) })
	list("transaction_extensions", gCount(t, "next"), genE, func(j int) { tx.Extensions = append(tx.Extensions, es[j]) })
	return tx, w.B, js.String() + "}"
}

func uintJSON(v uint64) string {
	s := strconv.FormatUint(v, 10)
	if v > 0xffffffff {
		return q(s)
	}
	return s
}

// the value types of the chain package
var scalarGens = []cvGen{
	{"Name", cvName},
	{"Symbol", func(t *rapid.T) CV {
		if chance(t, "raw", 5) {
			v := gU64(t, "sym")
			return CV{V: chain.Symbol(v), Wire: le(v, 8), ABI: "symbol", Interest: v != 0}
		}
		d, c := gSymbolParts(t, "sym")
		v := ref.SymbolRaw(d, c)
		return CV{V: chain.Symbol(v), Wire: le(v, 8), JSON: q(fmt.Sprint(d) + "," + c), ABI: "symbol", Interest: true}
	}},
	{"SymbolCode", func(t *rapid.T) CV {
		if chance(t, "raw", 5) {
			v := gU64(t, "code")
			return CV{V: chain.SymbolCode(v), Wire: le(v, 8), ABI: "symbol_code", Interest: v != 0}
		}
		c := gCode(t, "code")
		v := ref.SymbolRaw(0, c) / 256
		return CV{V: chain.SymbolCode(v), Wire: le(v, 8), JSON: q(c), ABI: "symbol_code", Interest: true}
	}},
	{"Asset", func(t *rapid.T) CV {
		v := gI64(t, "units")
		if chance(t, "raw", 5) {
			s := gU64(t, "sym")
			return CV{V: chain.Asset{Value: v, Symbol: chain.Symbol(s)}, Wire: ref.Cat(le(uint64(v), 8), le(s, 8)), ABI: "asset", Interest: true}
		}
		d, c := gSymbolParts(t, "sym")
		s := ref.SymbolRaw(d, c)
		return CV{V: chain.Asset{Value: v, Symbol: chain.Symbol(s)}, Wire: ref.Cat(le(uint64(v), 8), le(s, 8)), JSON: q(ref.AssetText(v, d, c)), ABI: "asset", Interest: v != 0}
	}},
	{"ExtendedAsset", func(t *rapid.T) CV {
		v, n := gI64(t, "units"), gName(t, "contract")
		d, c := gSymbolParts(t, "sym")
		s := ref.SymbolRaw(d, c)
		return CV{V: chain.ExtendedAsset{Quantity: chain.Asset{Value: v, Symbol: chain.Symbol(s)}, Contract: n},
			Wire: ref.Cat(le(uint64(v), 8), le(s, 8), le(uint64(n), 8)),
			JSON: `{"quantity":` + q(ref.AssetText(v, d, c)) + `,"contract":` + q(ref.NameText(uint64(n))) + `}`, ABI: "extended_asset", Interest: true}
	}},
	{"TimePoint", func(t *rapid.T) CV {
		v := gMicros(t, "tp")
		js := ""
		if s, ok := ref.UTCText(v, 3); ok && v%1000 == 0 {
			js = q(s)
		}
		return CV{V: chain.TimePoint(v), Wire: le(uint64(v), 8), JSON: js, ABI: "time_point", Interest: v != 0}
	}},
	{"TimePointSec", func(t *rapid.T) CV {
		v := gU32(t, "tps")
		return CV{V: chain.TimePointSec(v), Wire: le(uint64(v), 4), JSON: q(secText(v)), ABI: "time_point_sec", Interest: v != 0}
	}},
	{"BlockTimestamp", func(t *rapid.T) CV {
		v := gU32(t, "bts")
		s, _ := ref.UTCText(946684800000000+int64(v)*500000, 3)
		return CV{V: chain.BlockTimestamp(v), Wire: le(uint64(v), 4), JSON: q(s), ABI: "block_timestamp_type", Interest: v != 0}
	}},
	{"BlockNum", func(t *rapid.T) CV {
		v := gU32(t, "bn")
		return CV{V: chain.BlockNum(v), Wire: le(uint64(v), 4), JSON: uintJSON(uint64(v)), Interest: v != 0}
	}},
	{"Checksum160", func(t *rapid.T) CV {
		var c chain.Checksum160
		copy(c[:], gFill(t, "c", 20))
		return CV{V: c, Wire: append([]byte{}, c[:]...), JSON: q(ref.Hex(c[:])), ABI: "checksum160", Interest: c != chain.Checksum160{}}
	}},
	{"Checksum256", func(t *rapid.T) CV {
		var c chain.Checksum256
		copy(c[:], gFill(t, "c", 32))
		return CV{V: c, Wire: append([]byte{}, c[:]...), JSON: q(ref.Hex(c[:])), ABI: "checksum256", Interest: c != chain.Checksum256{}}
	}},
	{"Checksum512", func(t *rapid.T) CV {
		var c chain.Checksum512
		copy(c[:], gFill(t, "c", 64))
		return CV{V: c, Wire: append([]byte{}, c[:]...), JSON: q(ref.Hex(c[:])), ABI: "checksum512", Interest: c != chain.Checksum512{}}
	}},
	{"Uint64", func(t *rapid.T) CV {
		v := gU64(t, "u")
		return CV{V: chain.Uint64(v), Wire: le(v, 8), JSON: uintJSON(v), ABI: "uint64", Interest: v != 0}
	}},
	{"Uint128", func(t *rapid.T) CV {
		lo, hi := gU64(t, "lo"), gU64(t, "hi")
		return CV{V: chain.Uint128{Lo: lo, Hi: hi}, Wire: ref.Cat(le(lo, 8), le(hi, 8)), JSON: q(ref.Uint128Big(lo, hi).String()), ABI: "uint128", Interest: hi != 0}
	}},
	{"Int128", func(t *rapid.T) CV {
		lo, hi := gU64(t, "lo"), gU64(t, "hi")
		return CV{V: chain.Int128{Lo: lo, Hi: hi}, Wire: ref.Cat(le(lo, 8), le(hi, 8)), JSON: q(ref.Int128Big(lo, hi).String()), ABI: "int128", Interest: hi != 0}
	}},
	{"Float128", func(t *rapid.T) CV {
		var f chain.Float128
		copy(f.Data[:], gFill(t, "f", 16))
		return CV{V: f, Wire: append([]byte{}, f.Data[:]...), JSON: q(ref.Hex(f.Data[:])), ABI: "float128", Interest: f != chain.Float128{}}
	}},
	{"Bytes", func(t *rapid.T) CV {
		b := gBytes(t, "b", 200000)
		return CV{V: chain.Bytes(b), Wire: ref.W(func(w *ref.Wire) { w.Bytes(b) }), JSON: q(ref.Hex(b)), ABI: "bytes", Interest: len(b) > 0}
	}},
	{"Blob", func(t *rapid.T) CV {
		b := gBytes(t, "b", 200000)
		return CV{V: chain.Blob(b), Wire: ref.W(func(w *ref.Wire) { w.Bytes(b) }), JSON: q(ref.B64(b)), Interest: len(b) > 0}
	}},
	{"PublicKey", func(t *rapid.T) CV {
		kt := gKeyType(t)
		d := gKeyData(t, kt)
		js := ""
		if len(d) < 400 {
			js = q(ref.KeyText("PUB", keyName(kt), d))
		}
		return CV{V: chain.PublicKey{Type: kt, Data: d}, Wire: ref.Cat([]byte{byte(kt)}, d), JSON: js, ABI: "public_key", Interest: true}
	}},
	{"Signature", func(t *rapid.T) CV {
		kt := gKeyType(t)
		d := gSigData(t, kt)
		js := ""
		if len(d) < 400 {
			js = q(ref.KeyText("SIG", keyName(kt), d))
		}
		return CV{V: chain.Signature{Type: kt, Data: d}, Wire: ref.Cat([]byte{byte(kt)}, d), JSON: js, ABI: "signature", Interest: true}
	}},
}

// the composite types of the chain package
var txGens = []cvGen{
	{"PermissionLevel", func(t *rapid.T) CV {
		v, w, j := gPermLevel(t)
		return CV{V: v, Wire: w, JSON: j, Interest: true}
	}},
	{"Action", func(t *rapid.T) CV {
		v, w, j := gAction(t)
		return CV{V: v, Wire: w, JSON: j, Interest: len(v.Authorization) > 0 || len(v.Data) > 0}
	}},
	{"TransactionHeader", func(t *rapid.T) CV {
		v, w, j := gHeader(t)
		return CV{V: v, Wire: w, JSON: "{" + j + "}", Interest: true}
	}},
	{"TransactionExtension", func(t *rapid.T) CV {
		v, w, j := gExt(t)
		return CV{V: v, Wire: w, JSON: j, Interest: true}
	}},
	{"Transaction", func(t *rapid.T) CV {
		v, w, j := gTransaction(t)
		return CV{V: v, Wire: w, JSON: j, Interest: len(v.Actions)+len(v.ContextFreeActions)+len(v.Extensions) > 0}
	}},
}

// the primitives of the abi package
var primGens = []cvGen{
	{"bool", func(t *rapid.T) CV {
		v := rapid.Bool().Draw(t, "v")
		return CV{V: v, Wire: ref.W(func(w *ref.Wire) { w.Bool(v) }), ABI: "bool", Interest: v}
	}},
	{"string", func(t *rapid.T) CV {
		v := gString(t, "v", 200000)
		return CV{V: v, Wire: ref.W(func(w *ref.Wire) { w.Str(v) }), ABI: "string", Interest: v != ""}
	}},
	{"uint8", func(t *rapid.T) CV {
		v := gU8(t, "v")
		return CV{V: v, Wire: le(uint64(v), 1), ABI: "uint8", Interest: v != 0}
	}},
	{"uint16", func(t *rapid.T) CV {
		v := gU16(t, "v")
		return CV{V: v, Wire: le(uint64(v), 2), ABI: "uint16", Interest: v != 0}
	}},
	{"uint32", func(t *rapid.T) CV {
		v := gU32(t, "v")
		return CV{V: v, Wire: le(uint64(v), 4), ABI: "uint32", Interest: v != 0}
	}},
	{"uint64", func(t *rapid.T) CV {
		v := gU64(t, "v")
		return CV{V: v, Wire: le(v, 8), Interest: v != 0}
	}},
	{"int8", func(t *rapid.T) CV {
		v := gI8(t, "v")
		return CV{V: v, Wire: le(uint64(v), 1), ABI: "int8", Interest: v != 0}
	}},
	{"int16", func(t *rapid.T) CV {
		v := gI16(t, "v")
		return CV{V: v, Wire: le(uint64(v), 2), ABI: "int16", Interest: v != 0}
	}},
	{"int32", func(t *rapid.T) CV {
		v := gI32(t, "v")
		return CV{V: v, Wire: le(uint64(v), 4), ABI: "int32", Interest: v != 0}
	}},
	{"int64", func(t *rapid.T) CV {
		v := gI64(t, "v")
		return CV{V: v, Wire: le(uint64(v), 8), ABI: "int64", Interest: v != 0}
	}},
	{"float32", func(t *rapid.T) CV {
		v := gF32(t, "v")
		return CV{V: v, Wire: ref.W(func(w *ref.Wire) { w.F32(v) }), ABI: "float32", Interest: v != 0}
	}},
	{"float64", func(t *rapid.T) CV {
		v := gF64(t, "v")
		return CV{V: v, Wire: ref.W(func(w *ref.Wire) { w.F64(v) }), ABI: "float64", Interest: v != 0}
	}},
	{"varint32", func(t *rapid.T) CV {
		v := gVari(t, "v")
		return CV{V: int(v), Wire: ref.W(func(w *ref.Wire) { w.Varint(v) }), ABI: "varint32", Interest: v != 0}
	}},
	{"varuint32", func(t *rapid.T) CV {
		v := gVaru(t, "v")
		return CV{V: uint(v), Wire: ref.W(func(w *ref.Wire) { w.Varuint(v) }), ABI: "varuint32", Interest: v != 0}
	}},
	{"[]byte", func(t *rapid.T) CV {
		v := gBytes(t, "v", 200000)
		return CV{V: v, Wire: ref.W(func(w *ref.Wire) { w.Bytes(v) }), Interest: len(v) > 0}
	}},
}

// gMicros gives microseconds since 1970, within and beyond printable years.
func gMicros(t *rapid.T, name string) int64 {
	switch rapid.IntRange(0, 6).Draw(t, name+".how") {
	case 0:
		return gI64(t, name)
	case 5: // a number of the code, in any unit
		return int64(dInt(t, name)) * pick(t, name+".unit", int64(1), 1000, 500000, 1000000, 60000000, 3600000000, 86400000000)
	case 1: // years 0..9999, millisecond steps
		return rapid.Int64Range(-62167219200000, 253402300799999).Draw(t, name+".ms") * 1000
	case 2: // 1970..2110
		return rapid.Int64Range(0, 4420000000).Draw(t, name+".s")*1000000 + int64(pick(t, name+".frac", 0, 1, 500, 999, 1000, 1500, 499999, 500000, 999000, 999999))
	case 3: // just before or after the epoch
		return rapid.Int64Range(-3000000, 3000000).Draw(t, name+".near")
	case 4: // around the turn of years and leap days
		s := pick(t, name+".turn", int64(951782400), 951868800, 946684800, 1709164800, 1709251200, 4107542400, -2203891200, 68169600, 1735689600, 4102444800, -1, 0)
		return s*1000000 + rapid.Int64Range(-2000, 2000).Draw(t, name+".off")*1000
	default:
		return rapid.Int64Range(-62167219200000000, 253402300799999999).Draw(t, name+".us")
	}
}

func allGens() []cvGen {
	return append(append(append([]cvGen{}, primGens...), scalarGens...), txGens...)
}

var allCV = allGens()
var chainCV = append(append([]cvGen{}, scalarGens...), txGens...)

// gCV draws a value of one of the given types.
func gCV(t *rapid.T, gens []cvGen) CV {
	i := rapid.IntRange(0, len(gens)-1).Draw(t, "type")
	g := gens[i]
	cv := g.gen(t)
	cv.Name = g.name
	cv.V = roomy(t, cv.V)
	return cv
}

// smaller limits big values in contexts that multiply the work.
func gSmallCV(t *rapid.T, gens []cvGen, maxWire int) CV {
	for i := 0; ; i++ {
		cv := gCV(t, gens)
		if len(cv.Wire) <= maxWire {
			return cv
		}
		if i > 3 {
			cv = cvName(t)
			cv.Name = "Name"
			return cv
		}
	}
}

func typeOf(cv CV) reflect.Type { return reflect.TypeOf(cv.V) }
