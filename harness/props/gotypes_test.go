package props

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
	"pgregory.net/rapid"

	"verif/ref"
)

// ---- static types that reflection cannot build -----------------------------

type MyU64 uint64
type MyU32 uint32
type MyI64 int64
type MyI32 int32

// Custom3 has its own binary form: three bytes, big endian.
type Custom3 struct{ N uint32 }

func (c Custom3) MarshalABI(e *abi.Encoder) error {
	return e.WriteBytes([]byte{byte(c.N >> 16), byte(c.N >> 8), byte(c.N)})
}

func (c *Custom3) UnmarshalABI(d *abi.Decoder) error {
	_, b, err := d.ReadBytes(3)
	if err == nil {
		c.N = uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2])
	}
	return err
}

// CustomList is a slice kind with its own binary form: uint16 count, items complemented.
type CustomList []uint8

func (c CustomList) MarshalABI(e *abi.Encoder) error {
	if err := e.WriteUint16(uint16(len(c))); err != nil {
		return err
	}
	for _, x := range c {
		if err := e.WriteUint8(^x); err != nil {
			return err
		}
	}
	return nil
}

func (c *CustomList) UnmarshalABI(d *abi.Decoder) error {
	n, err := d.ReadUint16()
	if err != nil {
		return err
	}
	*c = CustomList{}
	for i := 0; i < int(n); i++ {
		x, err := d.ReadUint8()
		if err != nil {
			return err
		}
		*c = append(*c, ^x)
	}
	return nil
}

// CustomStr is a string kind with its own binary form: one length byte, text backwards.
type CustomStr string

func (c CustomStr) MarshalABI(e *abi.Encoder) error {
	b := []byte{byte(len(c))}
	for i := len(c) - 1; i >= 0; i-- {
		b = append(b, c[i])
	}
	return e.WriteBytes(b)
}

func (c *CustomStr) UnmarshalABI(d *abi.Decoder) error {
	n, err := d.ReadByte()
	if err != nil {
		return err
	}
	_, b, err := d.ReadBytes(int(n))
	if err != nil {
		return err
	}
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	*c = CustomStr(b)
	return nil
}

// CustomU8 is a byte kind that takes two bytes: the value and its complement.
type CustomU8 uint8

func (c CustomU8) MarshalABI(e *abi.Encoder) error { return e.WriteBytes([]byte{byte(c), ^byte(c)}) }

func (c *CustomU8) UnmarshalABI(d *abi.Decoder) error {
	a, err := d.ReadByte()
	if err == nil {
		_, err = d.ReadByte()
		*c = CustomU8(a)
	}
	return err
}

// CustomArr is an array kind stored big endian.
type CustomArr [2]uint16

func (c CustomArr) MarshalABI(e *abi.Encoder) error {
	return e.WriteBytes([]byte{byte(c[0] >> 8), byte(c[0]), byte(c[1] >> 8), byte(c[1])})
}

func (c *CustomArr) UnmarshalABI(d *abi.Decoder) error {
	_, b, err := d.ReadBytes(4)
	if err == nil {
		c[0], c[1] = uint16(b[0])<<8|uint16(b[1]), uint16(b[2])<<8|uint16(b[3])
	}
	return err
}

// CustomMap is a map kind stored as the keys it holds of 0 to 7, as bits.
type CustomMap map[uint8]bool

func (c CustomMap) MarshalABI(e *abi.Encoder) error {
	var b byte
	for k := range c {
		b |= 1 << k
	}
	return e.WriteByte(b)
}

func (c *CustomMap) UnmarshalABI(d *abi.Decoder) error {
	b, err := d.ReadByte()
	if err == nil {
		*c = CustomMap{}
		for i := uint8(0); i < 8; i++ {
			if b&(1<<i) != 0 {
				(*c)[i] = true
			}
		}
	}
	return err
}

type Pair struct {
	First  uint16
	Second string
}

type Inner struct {
	Id   uint32
	Tags []string
	Opt  *uint64 `eosio:"optional"`
}

type Outer struct {
	Inner
	Name  chain.Name
	Items []Inner
	Ptr   *Pair
	Fixed [3]Pair
}

// Node is recursive through a pointer and a slice.
type Node struct {
	Value uint8
	Next  *Node `eosio:"optional"`
	Kids  []Node
}

type OptAll struct {
	A *bool            `eosio:"optional"`
	B *string          `eosio:"optional"`
	C *chain.Asset     `eosio:"optional"`
	D *[]uint16        `eosio:"optional"`
	E *Pair            `eosio:"optional"`
	F uint32           `eosio:"optional"`
	G []byte           `eosio:"optional"`
	H *chain.PublicKey `eosio:"optional"`
}

type Empty struct{}

type OneEmpty struct {
	E Empty
	X uint8
}

// Types of every kind with a name but no methods.
type NameList []chain.Name
type Grid [2][3]uint16
type Dict map[string][]uint8
type PairPtrs []*Pair

// Other types with the name and the number of fields of Pair, Inner and OneEmpty.
func twins() []reflect.Type {
	type Pair struct {
		First  *uint16 `eosio:"optional"`
		Second string
	}
	type Inner struct {
		Id   *uint32 `eosio:"optional"`
		Tags []Pair
		Opt  *uint64
	}
	type NameList []string
	return []reflect.Type{reflect.TypeOf(Pair{}), reflect.TypeOf(Inner{}), reflect.TypeOf(NameList{})}
}

func twins2() []reflect.Type {
	type Pair struct {
		Second string
		First  uint16
	}
	type Inner struct {
		Opt  *uint64 `eosio:"optional"`
		Tags map[string]uint8
		Id   uint32
	}
	return []reflect.Type{reflect.TypeOf(Pair{}), reflect.TypeOf(Inner{})}
}

const ownNamed = 14 // the first of them, without those of the chain package

var namedTypes = []reflect.Type{
	twins()[0], twins()[1], twins()[2], twins2()[0],
	reflect.TypeOf(NameList{}), reflect.TypeOf(Grid{}), reflect.TypeOf(Dict{}), reflect.TypeOf(PairPtrs{}),
	reflect.TypeOf(Pair{}), reflect.TypeOf(Inner{}), reflect.TypeOf(Outer{}), reflect.TypeOf(Node{}),
	reflect.TypeOf(OptAll{}), reflect.TypeOf(OneEmpty{}), reflect.TypeOf(chain.AbiField{}), reflect.TypeOf(chain.AbiStruct{}),
	reflect.TypeOf(chain.AbiTable{}), twins2()[1],
}

// ---- type descriptions ------------------------------------------------------

type gKind int

const (
	kLeaf gKind = iota
	kStruct
	kSlice
	kArray
	kMap
	kPtr
	kVariant // struct of pointers, decoded by index
)

type GT struct {
	K      gKind
	RT     reflect.Type
	Leaf   *cvGen
	Elem   *GT
	Key    *GT
	N      int
	Fields []GF
}

type GF struct {
	Name string
	T    *GT
	Tag  string // "", optional, extension, variant
}

var leafTypes = map[string]reflect.Type{}
var leafByType = map[reflect.Type]*cvGen{}

// leaves are all primitives, chain types and types with their own codec.
var leaves []cvGen

// noCustom leaves out the types of this package that have their own codec (they
// are last).
var noCustom bool

func nLeaves() int {
	n := len(leaves)
	for noCustom && strings.HasPrefix(leaves[n-1].name, "Custom") {
		n--
	}
	return n
}

func init() {
	zero := map[string]interface{}{
		"bool": false, "string": "", "uint8": uint8(0), "uint16": uint16(0), "uint32": uint32(0), "uint64": uint64(0),
		"int8": int8(0), "int16": int16(0), "int32": int32(0), "int64": int64(0), "float32": float32(0), "float64": float64(0),
		"varint32": int(0), "varuint32": uint(0), "[]byte": []byte{},
		"Name": chain.Name(0), "Symbol": chain.Symbol(0), "SymbolCode": chain.SymbolCode(0), "Asset": chain.Asset{}, "ExtendedAsset": chain.ExtendedAsset{},
		"TimePoint": chain.TimePoint(0), "TimePointSec": chain.TimePointSec(0), "BlockTimestamp": chain.BlockTimestamp(0), "BlockNum": chain.BlockNum(0),
		"Checksum160": chain.Checksum160{}, "Checksum256": chain.Checksum256{}, "Checksum512": chain.Checksum512{},
		"Uint64": chain.Uint64(0), "Uint128": chain.Uint128{}, "Int128": chain.Int128{}, "Float128": chain.Float128{},
		"Bytes": chain.Bytes{}, "Blob": chain.Blob{}, "PublicKey": chain.PublicKey{}, "Signature": chain.Signature{},
		"PermissionLevel": chain.PermissionLevel{}, "Action": chain.Action{}, "TransactionHeader": chain.TransactionHeader{},
		"TransactionExtension": chain.TransactionExtension{}, "Transaction": chain.Transaction{},
		"MyU64": MyU64(0), "MyU32": MyU32(0), "MyI64": MyI64(0), "MyI32": MyI32(0), "Custom3": Custom3{}, "CustomList": CustomList{},
		"CustomStr": CustomStr(""), "CustomU8": CustomU8(0), "CustomArr": CustomArr{}, "CustomMap": CustomMap{},
	}
	leaves = append(leaves, allCV...)
	leaves = append(leaves,
		cvGen{"MyU64", func(t *rapid.T) CV { v := gU64(t, "v"); return CV{V: MyU64(v), Wire: le(v, 8), Interest: v != 0} }},
		cvGen{"MyU32", func(t *rapid.T) CV {
			v := gU32(t, "v")
			return CV{V: MyU32(v), Wire: le(uint64(v), 4), Interest: v != 0}
		}},
		cvGen{"MyI64", func(t *rapid.T) CV {
			v := gI64(t, "v")
			return CV{V: MyI64(v), Wire: le(uint64(v), 8), Interest: v != 0}
		}},
		cvGen{"MyI32", func(t *rapid.T) CV {
			v := gI32(t, "v")
			return CV{V: MyI32(v), Wire: le(uint64(v), 4), Interest: v != 0}
		}},
		cvGen{"Custom3", func(t *rapid.T) CV {
			v := gU32(t, "v") & 0xffffff
			return CV{V: Custom3{v}, Wire: []byte{byte(v >> 16), byte(v >> 8), byte(v)}, Interest: v != 0}
		}},
		cvGen{"CustomList", func(t *rapid.T) CV {
			b := gFill(t, "v", rapid.IntRange(0, 5).Draw(t, "n"))
			w := le(uint64(len(b)), 2)
			for _, x := range b {
				w = append(w, ^x)
			}
			return CV{V: CustomList(b), Wire: w, Interest: len(b) > 0}
		}},
		cvGen{"CustomStr", func(t *rapid.T) CV {
			s := gString(t, "v", 20)
			if len(s) > 255 {
				s = s[:255]
			}
			w := []byte{byte(len(s))}
			for i := len(s); i > 0; i-- {
				w = append(w, s[i-1])
			}
			return CV{V: CustomStr(s), Wire: w, Interest: s != ""}
		}},
		cvGen{"CustomU8", func(t *rapid.T) CV {
			v := gU8(t, "v")
			return CV{V: CustomU8(v), Wire: []byte{v, ^v}, Interest: v != 0}
		}},
		cvGen{"CustomArr", func(t *rapid.T) CV {
			a, b := gU16(t, "a"), gU16(t, "b")
			return CV{V: CustomArr{a, b}, Wire: []byte{byte(a >> 8), byte(a), byte(b >> 8), byte(b)}, Interest: a != 0 || b != 0}
		}},
		cvGen{"CustomMap", func(t *rapid.T) CV {
			b := gU8(t, "v")
			m := CustomMap{}
			for i := uint8(0); i < 8; i++ {
				if b&(1<<i) != 0 {
					m[i] = true
				}
			}
			return CV{V: m, Wire: []byte{b}, Interest: b != 0}
		}},
	)
	for i := range leaves {
		z, ok := zero[leaves[i].name]
		if !ok {
			panic("no zero value for " + leaves[i].name)
		}
		rt := reflect.TypeOf(z)
		leafTypes[leaves[i].name] = rt
		leafByType[rt] = &leaves[i]
	}
}

var gtCache = map[reflect.Type]*GT{}

// gtOf describes a static type.
func gtOf(rt reflect.Type) *GT {
	if g := gtCache[rt]; g != nil {
		return g
	}
	g := &GT{RT: rt}
	gtCache[rt] = g
	if l := leafByType[rt]; l != nil {
		g.K, g.Leaf = kLeaf, l
		return g
	}
	switch rt.Kind() {
	case reflect.Struct:
		g.K = kStruct
		for i := 0; i < rt.NumField(); i++ {
			f := rt.Field(i)
			g.Fields = append(g.Fields, GF{f.Name, gtOf(f.Type), f.Tag.Get("eosio")})
		}
	case reflect.Slice:
		g.K, g.Elem = kSlice, gtOf(rt.Elem())
	case reflect.Array:
		g.K, g.Elem, g.N = kArray, gtOf(rt.Elem()), rt.Len()
	case reflect.Map:
		g.K, g.Key, g.Elem = kMap, gtOf(rt.Key()), gtOf(rt.Elem())
	case reflect.Ptr:
		g.K, g.Elem = kPtr, gtOf(rt.Elem())
	default:
		panic("gtOf " + rt.String())
	}
	return g
}

func (g *GT) String() string {
	s := g.RT.String()
	s = strings.ReplaceAll(s, "interface {}", "any")
	return clip(s, 400)
}

type gOpts struct {
	variants   bool // may contain variant fields (decode only)
	extensions bool // the top-level struct may end in extension fields
	maps       bool
	own        bool // no struct types of the chain package
	minimum1   bool // every element takes up at least one byte
}

func gLeafType(t *rapid.T) *GT {
	l := &leaves[rapid.IntRange(0, nLeaves()-1).Draw(t, "leaf")]
	return &GT{K: kLeaf, RT: leafTypes[l.name], Leaf: l}
}

// keyable leaves: comparable and without NaN trouble
var keyNames = []string{"bool", "string", "uint8", "uint16", "uint32", "uint64", "int8", "int16", "int32", "int64", "varint32", "varuint32",
	"Name", "Symbol", "Checksum160", "Uint128", "TimePointSec", "Asset", "Uint64", "MyU64", "MyI32", "PermissionLevel", "Custom3", "CustomStr", "CustomU8", "CustomArr"}

func gType(t *rapid.T, depth int, o gOpts) *GT {
	if depth <= 0 {
		return gLeafType(t)
	}
	switch rapid.IntRange(0, 11).Draw(t, "kind") {
	case 0, 1, 2:
		return gLeafType(t)
	case 3, 4, 5:
		return gStructType(t, depth-1, o, false)
	case 6, 7:
		e := gElemType(t, depth-1, o)
		return &GT{K: kSlice, Elem: e, RT: reflect.SliceOf(e.RT)}
	case 8:
		e := gElemType(t, depth-1, o)
		n := pick(t, "arrlen", 1, 2, 3, 4, 0, 7, 33, dLen(t, "arrlen", 70))
		if o.minimum1 && n == 0 {
			n = 1
		}
		if chance(t, "longarr", 10) {
			l := leafByType[reflect.TypeOf(pick[interface{}](t, "longelem", uint8(0), uint16(0), uint64(0), false, MyU32(0), chain.Name(0), CustomU8(0), ""))]
			e, n = &GT{K: kLeaf, RT: leafTypes[l.name], Leaf: l}, pick(t, "longarrlen", 64, 100, 127, 128, 129, 255, 256, 257, 300, 1000)
		}
		if e.K != kLeaf && n > 7 {
			n = 7
		}
		return &GT{K: kArray, N: n, Elem: e, RT: reflect.ArrayOf(n, e.RT)}
	case 9:
		if !o.maps {
			return gLeafType(t)
		}
		kn := keyNames[rapid.IntRange(0, len(keyNames)-1).Draw(t, "keytype")]
		k := &GT{K: kLeaf, RT: leafTypes[kn], Leaf: leafByType[leafTypes[kn]]}
		if chance(t, "compositekey", 5) {
			k = gtOf(pick(t, "keystruct", reflect.TypeOf(Pair{}), reflect.TypeOf([4]uint8{}), reflect.TypeOf([2]Pair{}), reflect.TypeOf([1]chain.Name{})))
		}
		e := gElemType(t, depth-1, o)
		return &GT{K: kMap, Key: k, Elem: e, RT: reflect.MapOf(k.RT, e.RT)}
	case 10:
		n := len(namedTypes)
		if o.own {
			n = ownNamed
		}
		i := rapid.IntRange(0, n-1).Draw(t, "named")
		if !o.maps && (namedTypes[i].Kind() == reflect.Map || i == len(namedTypes)-1) {
			i = 0
		}
		return gtOf(namedTypes[i])
	default:
		e := gType(t, depth-1, o)
		if e.K == kPtr && !chance(t, "ptrptr", 2) {
			return e
		}
		return &GT{K: kPtr, Elem: e, RT: reflect.PtrTo(e.RT)}
	}
}

// gElemType is the type of a list element; it sometimes is a pointer.
func gElemType(t *rapid.T, depth int, o gOpts) *GT {
	o.extensions = false
	o.minimum1 = true
	e := gType(t, depth, o)
	if e.K != kPtr && chance(t, "ptrelem", 6) {
		return &GT{K: kPtr, Elem: e, RT: reflect.PtrTo(e.RT)}
	}
	return e
}

func gStructType(t *rapid.T, depth int, o gOpts, top bool) *GT {
	min := 0
	if o.minimum1 {
		min = 1
	}
	n := rapid.IntRange(min, 5).Draw(t, "nfields")
	few := n
	if chance(t, "widestruct", 40) {
		n = pick(t, "manyfields", 8, 16, 33, 65, 130)
	}
	g := &GT{K: kStruct}
	inner := o
	inner.extensions = false
	var sf []reflect.StructField
	ext := 0
	if o.extensions && top {
		ext = rapid.IntRange(0, 3).Draw(t, "next")
	}
	for i := 0; i < n+ext; i++ {
		f := GF{Name: fmt.Sprintf("F%d", i)}
		how := rapid.IntRange(0, 9).Draw(t, "fieldhow")
		switch {
		case i >= few && i < n:
			l := &leaves[(i*7+few)%nLeaves()]
			f.T = &GT{K: kLeaf, RT: leafTypes[l.name], Leaf: l}
			if how < 3 {
				f.T, f.Tag = &GT{K: kPtr, Elem: f.T, RT: reflect.PtrTo(f.T.RT)}, "optional"
			}
		case o.variants && how == 0:
			f.T, f.Tag = gVariantType(t, depth-1, inner), "variant"
			if rapid.Bool().Draw(t, "vptr") {
				f.T = &GT{K: kPtr, Elem: f.T, RT: reflect.PtrTo(f.T.RT)}
			}
		case how <= 2 && i < n:
			f.T, f.Tag = gType(t, depth-1, inner), "optional"
			if f.T.K != kPtr && !chance(t, "plainopt", 4) {
				f.T = &GT{K: kPtr, Elem: f.T, RT: reflect.PtrTo(f.T.RT)}
			}
		default:
			f.T = gType(t, depth-1, inner)
		}
		if i >= n {
			f.Tag = "extension"
			if f.T.K == kVariant || (f.T.K == kPtr && f.T.Elem.K == kVariant) {
				f.T = gLeafType(t)
			}
			// an extension must not be empty, or absence means nothing
			for tries := 0; minSize(f.T, 0) == 0; tries++ {
				f.T = gLeafType(t)
			}
		}
		g.Fields = append(g.Fields, f)
		tag := reflect.StructTag("")
		if f.Tag != "" {
			tag = reflect.StructTag(`eosio:"` + f.Tag + `"`)
			if how%3 == 0 {
				tag = `json:"f,omitempty" ` + tag
			}
		}
		sf = append(sf, reflect.StructField{Name: f.Name, Type: f.T.RT, Tag: tag})
	}
	g.RT = reflect.StructOf(sf)
	if o.minimum1 && minSize(g, 0) == 0 {
		return gLeafType(t)
	}
	return g
}

func gVariantType(t *rapid.T, depth int, o gOpts) *GT {
	n := rapid.IntRange(1, 4).Draw(t, "nalts")
	few := n
	if chance(t, "widevariant", 15) {
		n = pick(t, "manyalts", 20, 127, 128, 129, 150, 255, 256, 257, 300)
	}
	g := &GT{K: kVariant}
	var sf []reflect.StructField
	for i := 0; i < n; i++ {
		var e *GT
		if i < few || i == n-1 {
			e = gType(t, depth, o)
		} else {
			l := &leaves[i%nLeaves()]
			e = &GT{K: kLeaf, RT: leafTypes[l.name], Leaf: l}
		}
		if e.K == kPtr {
			e = e.Elem
		}
		p := &GT{K: kPtr, Elem: e, RT: reflect.PtrTo(e.RT)}
		name := fmt.Sprintf("A%d", i)
		g.Fields = append(g.Fields, GF{Name: name, T: p})
		sf = append(sf, reflect.StructField{Name: name, Type: p.RT})
	}
	g.RT = reflect.StructOf(sf)
	return g
}

// minSize is a lower bound of the encoded size.
func minSize(g *GT, depth int) int {
	if depth > 20 {
		return 1
	}
	switch g.K {
	case kStruct:
		n := 0
		for _, f := range g.Fields {
			if f.Tag == "optional" {
				n++
			} else {
				n += minSize(f.T, depth+1)
			}
		}
		return n
	case kArray:
		return g.N * minSize(g.Elem, depth+1)
	case kPtr:
		return minSize(g.Elem, depth+1)
	default:
		return 1
	}
}

// ---- values -----------------------------------------------------------------

// WT is the expected wire form; map entries may come in any order.
type WT struct {
	raw     []byte
	kids    []*WT
	isMap   bool
	entries [][2]*WT
}

func (w *WT) flat() []byte {
	if w.isMap {
		b := ref.W(func(x *ref.Wire) { x.Varuint(uint32(len(w.entries))) })
		for _, e := range w.entries {
			b = append(b, e[0].flat()...)
			b = append(b, e[1].flat()...)
		}
		return b
	}
	b := append([]byte{}, w.raw...)
	for _, k := range w.kids {
		b = append(b, k.flat()...)
	}
	return b
}

func (w *WT) multiMap() bool {
	if w.isMap && len(w.entries) > 1 {
		return true
	}
	for _, k := range w.kids {
		if k.multiMap() {
			return true
		}
	}
	for _, e := range w.entries {
		if e[0].multiMap() || e[1].multiMap() {
			return true
		}
	}
	return false
}

// match checks b against the expected form and returns what follows.
func (w *WT) match(b []byte) (rest []byte, ok bool) {
	if !w.isMap {
		if !bytes.HasPrefix(b, w.raw) {
			return nil, false
		}
		b = b[len(w.raw):]
		for _, k := range w.kids {
			if b, ok = k.match(b); !ok {
				return nil, false
			}
		}
		return b, true
	}
	cnt := ref.W(func(x *ref.Wire) { x.Varuint(uint32(len(w.entries))) })
	if !bytes.HasPrefix(b, cnt) {
		return nil, false
	}
	b = b[len(cnt):]
	used := make([]bool, len(w.entries))
	for range w.entries {
		found := false
		for i, e := range w.entries {
			if used[i] {
				continue
			}
			if r, ok := e[0].match(b); ok { // keys are self-delimiting and distinct
				r2, ok := e[1].match(r)
				if !ok {
					return nil, false
				}
				used[i], found, b = true, true, r2
				break
			}
		}
		if !found {
			return nil, false
		}
	}
	return b, true
}

type vgen struct {
	t         *rapid.T
	budget    int // remaining wire bytes, roughly
	extStarts []int
	interest  bool
	nils      bool // plant a nil where a value is required
	planted   bool
	canEncode bool
	hook      *hookPlan // what a custom codec hook does, nil without one
}

// value generates a value of type g into a new addressable reflect.Value.
func (x *vgen) value(g *GT, depth int) (reflect.Value, *WT) {
	if x.hook == nil {
		return x.value0(g, depth)
	}
	m := x.hook.mark()
	v, w := x.value0(g, depth)
	return v, x.hook.apply(m, g, v, w)
}

func (x *vgen) value0(g *GT, depth int) (reflect.Value, *WT) {
	v := reflect.New(g.RT).Elem()
	switch g.K {
	case kLeaf:
		var cv CV
		if x.budget < 2000 {
			for i := 0; ; i++ {
				cv = g.Leaf.gen(x.t)
				if len(cv.Wire) < 300 {
					break
				}
				if i > 2 { // give up on small ones
					break
				}
			}
		} else {
			cv = g.Leaf.gen(x.t)
		}
		x.budget -= len(cv.Wire)
		if cv.Interest {
			x.interest = true
		}
		v.Set(reflect.ValueOf(cv.V))
		return v, &WT{raw: cv.Wire}
	case kStruct:
		w := &WT{}
		for i, f := range g.Fields {
			switch f.Tag {
			case "optional":
				absent := rapid.Bool().Draw(x.t, "absent") || depth > 12 || x.budget < 0
				if absent {
					w.kids = append(w.kids, &WT{raw: []byte{0}})
					continue
				}
				had := x.planted
				m := x.hook.mark()
				fv, fw := x.value(f.T, depth+1)
				if fv.IsZero() {
					x.hook.reset(m)
					x.planted = had // a nil optional is simply absent
					w.kids = append(w.kids, &WT{raw: []byte{0}})
					continue
				}
				v.Field(i).Set(fv)
				w.kids = append(w.kids, &WT{raw: []byte{1}}, fw)
			default:
				if f.Tag == "extension" && depth == 0 {
					x.extStarts = append(x.extStarts, len(w.flat()))
				}
				fv, fw := x.value(f.T, depth+1)
				v.Field(i).Set(fv)
				w.kids = append(w.kids, fw)
			}
		}
		return v, w
	case kVariant:
		i := rapid.IntRange(0, len(g.Fields)-1).Draw(x.t, "alt")
		if i > 4 && chance(x.t, "lastalt", 3) {
			i = len(g.Fields) - 1
		}
		fv, fw := x.value(g.Fields[i].T, depth+1)
		v.Field(i).Set(fv)
		x.interest = true
		return v, &WT{kids: []*WT{{raw: ref.W(func(y *ref.Wire) { y.Varuint(uint32(i)) })}, fw}}
	case kSlice, kArray:
		n := g.N
		w := &WT{}
		if g.K == kSlice {
			n = x.count(depth)
			v.Set(reflect.MakeSlice(g.RT, n, n))
			w.raw = ref.W(func(y *ref.Wire) { y.Varuint(uint32(n)) })
		}
		var evs []reflect.Value
		var ews []*WT
		for i := 0; i < n; i++ {
			j := i
			if i < 5 || g.Elem.K == kLeaf && g.Elem.RT.Kind() == reflect.Uint8 && i < 40 {
				ev, ew := x.value(g.Elem, depth+1)
				evs, ews = append(evs, ev), append(ews, ew)
				if size := len(ew.flat()); g.K == kSlice && i == 0 && n > 5 && n*size > 40000 {
					n = 5 // lists of lists of lists get out of hand
					v.SetLen(n)
					w.raw = ref.W(func(y *ref.Wire) { y.Varuint(uint32(n)) })
				}
			} else {
				j = mixer(uint64(n), uint64(i), len(evs))
			}
			v.Index(i).Set(evs[j])
			w.kids = append(w.kids, ews[j])
		}
		return v, w
	case kMap:
		n := x.count(depth)
		if n > 6 {
			n = n % 7
		}
		w := &WT{isMap: true}
		v.Set(reflect.MakeMap(g.RT))
		for i := 0; i < n; i++ {
			kv, kw := x.value(g.Key, depth+1)
			if v.MapIndex(kv).IsValid() {
				continue
			}
			ev, ew := x.value(g.Elem, depth+1)
			v.SetMapIndex(kv, ev)
			w.entries = append(w.entries, [2]*WT{kw, ew})
		}
		return v, w
	case kPtr:
		if x.nils && !x.planted && chance(x.t, "nilhere", 3) {
			x.planted = true
			return v, &WT{}
		}
		ev, ew := x.value(g.Elem, depth+1)
		p := reflect.New(g.Elem.RT)
		p.Elem().Set(ev)
		v.Set(p)
		return v, ew
	}
	panic("kind")
}

func (x *vgen) count(depth int) int {
	if depth > 10 || x.budget < 0 {
		return 0
	}
	if depth <= 1 && chance(x.t, "long", 10) {
		return pick(x.t, "count", 127, 128, 129, 255, 256, 300, 17, 33, dLen(x.t, "count", 600))
	}
	return rapid.IntRange(0, 3).Draw(x.t, "count")
}

// gGoValue draws a type and a value of it.
func gGoValue(t *rapid.T, depth int, o gOpts) (*GT, reflect.Value, *WT, *vgen) {
	var g *GT
	switch rapid.IntRange(0, 3).Draw(t, "top") {
	case 0:
		g = gType(t, depth, o)
	default:
		g = gStructType(t, depth, o, true)
	}
	x := &vgen{t: t, budget: 4000}
	v, w := x.value(g, 0)
	return g, v, w, x
}
