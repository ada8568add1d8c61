package props

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	"github.com/greymass/go-eosio/pkg/chain"
	"pgregory.net/rapid"

	"verif/ref"
)

// ---- schema model -------------------------------------------------------------

// A type expression: a builtin or a definition, optionally an array, optionally
// optional, optionally a binary extension.
type AE struct {
	builtin *cvGen // or
	def     *AD
	text    string // name of the builtin as written
	arr     bool
	opt     bool
	ext     bool
	rev     bool // the two markers in the reverse order, "$?"
}

func (e AE) base() string {
	if e.builtin != nil {
		return e.text
	}
	return e.def.name
}

func (e AE) name() string {
	s := e.base()
	if e.arr {
		s += "[]"
	}
	if e.ext && e.rev {
		s += "$"
	}
	if e.opt {
		s += "?"
	}
	if e.ext && !e.rev {
		s += "$"
	}
	return s
}

// nilable: nil is a valid value (the expression is optional, or an alias for one).
func (e AE) nilable() bool {
	if e.opt {
		return true
	}
	if e.arr || e.def == nil || e.def.kind != dAlias {
		return false
	}
	return e.def.alias.nilable()
}

type dKind int

const (
	dStruct dKind = iota
	dVariant
	dAlias
)

type AField struct {
	name string
	typ  AE
}

// AD is one definition of the schema.
type AD struct {
	kind   dKind
	name   string
	base   *AD // struct, or alias of one
	fields []AField
	alts   []AE
	alias  AE
	hasExt bool // may end early: only usable where nothing follows
	noExt  bool // used where something follows: must not get extensions
}

func (d *AD) strct() *AD {
	for d.kind == dAlias {
		d = d.alias.def
	}
	return d
}

// isStruct: a struct or an alias that plainly means one.
func (d *AD) isStruct() bool {
	for d.kind == dAlias {
		if d.alias.def == nil || d.alias.arr || d.alias.opt {
			return false
		}
		d = d.alias.def
	}
	return d.kind == dStruct
}

func (d *AD) all() []AField {
	d = d.strct()
	var fs []AField
	if d.base != nil {
		fs = append(fs, d.base.all()...)
	}
	return append(fs, d.fields...)
}

type Schema struct {
	defs    []*AD
	actions map[chain.Name]*AD
	abi     *chain.Abi
}

func (s *Schema) text() string {
	var b strings.Builder
	for _, d := range s.defs {
		switch d.kind {
		case dStruct:
			b.WriteString("struct " + d.name)
			if d.base != nil {
				b.WriteString(":" + d.base.name)
			}
			b.WriteString("{")
			for i, f := range d.fields {
				if i > 0 {
					b.WriteString(" ")
				}
				b.WriteString(f.name + ":" + f.typ.name())
			}
			b.WriteString("} ")
		case dVariant:
			b.WriteString("variant " + d.name + "<")
			for i, a := range d.alts {
				if i > 0 {
					b.WriteString("|")
				}
				b.WriteString(a.name())
			}
			b.WriteString("> ")
		case dAlias:
			b.WriteString("alias " + d.name + "=" + d.alias.name() + " ")
		}
	}
	return b.String()
}

var abiBuiltins []cvGen

func init() {
	probe := map[string]string{}
	for _, g := range allCV {
		switch g.name { // Go types that are the value of an ABI builtin
		case "uint64", "[]byte", "Blob", "BlockNum", "PermissionLevel", "Action", "TransactionHeader", "TransactionExtension", "Transaction":
		default:
			abiBuiltins = append(abiBuiltins, g)
			probe[g.name] = ""
		}
	}
	// "eosio::name" is another way to write name
	abiBuiltins = append(abiBuiltins, cvGen{"eosio::name", cvName})
}

var builtinText = map[string]string{"Name": "name", "Symbol": "symbol", "SymbolCode": "symbol_code", "Asset": "asset", "ExtendedAsset": "extended_asset",
	"TimePoint": "time_point", "TimePointSec": "time_point_sec", "BlockTimestamp": "block_timestamp_type", "Checksum160": "checksum160", "Checksum256": "checksum256",
	"Checksum512": "checksum512", "Uint64": "uint64", "Uint128": "uint128", "Int128": "int128", "Float128": "float128", "Bytes": "bytes",
	"PublicKey": "public_key", "Signature": "signature"}

func gBuiltin(t *rapid.T) AE {
	g := &abiBuiltins[rapid.IntRange(0, len(abiBuiltins)-1).Draw(t, "builtin")]
	n := g.name
	if s, ok := builtinText[n]; ok {
		n = s
	}
	return AE{builtin: g, text: n}
}

func isBuiltinName(s string) bool {
	for _, g := range abiBuiltins {
		if g.name == s || builtinText[g.name] == s {
			return true
		}
	}
	return false
}

var defNames = []string{"a", "b", "S", "x1", "my_struct", "transfer", "eosio.token", "names", "uint8x", "bool_", "token::type", "int", "uint", "v", "variant_name", "Asset", "type with space", "é", "uint256", "optional", "a_very_long_type_name_that_goes_on_and_on", "n", "s", "_", "0", "string2", "byte", "checksum"}

type schemaOpts struct {
	noExt    bool
	noEmpty  bool
	maxDefs  int
	noRecurs bool
}

// gSchema draws a well-formed ABI.
func gSchema(t *rapid.T, o schemaOpts) *Schema {
	s := &Schema{actions: map[chain.Name]*AD{}}
	max := o.maxDefs
	if max == 0 {
		max = 6
	}
	n := rapid.IntRange(1, max).Draw(t, "ndefs")
	if o.maxDefs == 0 && chance(t, "manydefs", 40) {
		n = pick(t, "many", 10, 17, 33, 66)
	}
	names := map[string]bool{}
	for i := 0; i < n; i++ {
		nm := defNames[rapid.IntRange(0, len(defNames)-1).Draw(t, "defname")]
		if chance(t, "dictname", 12) {
			nm = strings.TrimRight(dStr(t, "defname"), "[]?$")
		}
		for nm == "" || names[nm] || isBuiltinName(nm) {
			nm += pick(t, "suffix", "_", "2", "x")
		}
		names[nm] = true
		k := dKind(0)
		switch rapid.IntRange(0, 5).Draw(t, "defkind") {
		case 3:
			k = dVariant
		case 4, 5:
			k = dAlias
		}
		s.defs = append(s.defs, &AD{kind: k, name: nm})
	}
	for i, d := range s.defs {
		s.fill(t, o, i, d)
	}
	s.build(t)
	return s
}

// expr draws a type expression for definition i. tail says that nothing can
// follow it, so that a type with extensions may be used.
func (s *Schema) expr(t *rapid.T, o schemaOpts, i int, tail bool) AE {
	var e AE
	var lower []*AD
	for _, d := range s.defs[:i] {
		if !d.hasExt || tail {
			lower = append(lower, d)
		}
	}
	how := rapid.IntRange(0, 9).Draw(t, "expr")
	switch {
	case how >= 5 && how <= 8 && len(lower) > 0:
		e.def = lower[rapid.IntRange(0, len(lower)-1).Draw(t, "ref")]
	case how == 9 && !o.noRecurs && len(s.defs) > i:
		// possibly itself or a later one, guarded by a list or an option
		d := s.defs[rapid.IntRange(i, len(s.defs)-1).Draw(t, "fwd")]
		if d.kind != dAlias && !d.hasExt {
			e.def = d
			d.noExt = true
			if rapid.Bool().Draw(t, "guard") {
				e.arr = true
			} else {
				e.opt = true
			}
			return e
		}
		fallthrough
	default:
		e = gBuiltin(t)
	}
	if e.def != nil && e.def.hasExt {
		return e
	}
	switch rapid.IntRange(0, 5).Draw(t, "wrap") {
	case 3:
		e.arr = true
	case 4:
		e.opt = true
	case 5:
		if rapid.Bool().Draw(t, "both") {
			e.arr, e.opt = true, true
		}
	}
	if e.opt && !e.arr && e.def != nil && e.def.kind == dAlias && e.def.alias.nilable() {
		e.opt = false // an option of an option can't be told apart
	}
	return e
}

var fieldNames = []string{"a", "b", "c", "x", "value", "from", "to", "quantity", "memo", "", "A", "type", "name", "é", "with space", "0", "$", "?", "[]", "length", "prev", "next"}

func (s *Schema) fill(t *rapid.T, o schemaOpts, i int, d *AD) {
	switch d.kind {
	case dAlias:
		d.alias = s.expr(t, schemaOpts{noRecurs: true, noExt: o.noExt, noEmpty: o.noEmpty}, i, true)
		d.hasExt = d.alias.def != nil && d.alias.def.hasExt
	case dVariant:
		n := rapid.IntRange(1, 4).Draw(t, "nalts")
		if chance(t, "manyalts", 15) {
			n = pick(t, "many", 127, 128, 129, 150, 1+dLen(t, "nalts", 150))
		}
		seen := map[string]bool{}
		for j := 0; j < n; j++ {
			var e AE
			if j < 8 {
				e = s.expr(t, o, i, false)
			} else {
				e = AE{builtin: &abiBuiltins[j%len(abiBuiltins)]}
				e.text = e.builtin.name
				if x, ok := builtinText[e.text]; ok {
					e.text = x
				}
				e.arr = j/len(abiBuiltins)%2 == 1
				e.opt = j/len(abiBuiltins)/2%2 == 1
			}
			if seen[e.name()] {
				continue
			}
			seen[e.name()] = true
			d.alts = append(d.alts, e)
		}
	case dStruct:
		used := map[string]bool{}
		baseExt := false
		if rapid.IntRange(0, 2).Draw(t, "based") == 2 {
			var bases []*AD
			for _, b := range s.defs[:i] {
				if b.isStruct() && !(b.hasExt && d.noExt) {
					bases = append(bases, b)
				}
			}
			if len(bases) > 0 {
				d.base = bases[rapid.IntRange(0, len(bases)-1).Draw(t, "base")]
				for _, f := range d.base.all() {
					used[f.name] = true
				}
				baseExt = d.base.strct().hasExt
			}
		}
		min := 1
		if d.base != nil || !o.noEmpty {
			min = 0
		}
		n := rapid.IntRange(min, 4).Draw(t, "nfields")
		ext := 0
		if !o.noExt && !d.noExt && rapid.IntRange(0, 3).Draw(t, "exts") == 3 {
			ext = rapid.IntRange(1, 3).Draw(t, "next")
		}
		if baseExt {
			n = 0
		}
		d.hasExt = ext > 0 || baseExt
		if !baseExt && chance(t, "widestruct", 30) {
			// many plain fields first
			for j, m := 0, pick(t, "manyfields", 9, 17, 33, 65, 130, 260, dLen(t, "nfields", 300)); j < m; j++ {
				nm := fmt.Sprintf("w%d", j)
				if used[nm] {
					continue
				}
				used[nm] = true
				g := &abiBuiltins[(j*7+i)%len(abiBuiltins)]
				f := AField{name: nm, typ: AE{builtin: g, text: g.name}}
				if x, ok := builtinText[g.name]; ok {
					f.typ.text = x
				}
				f.typ.opt = j%5 == 3
				d.fields = append(d.fields, f)
			}
		}
		for j := 0; j < n+ext; j++ {
			nm := fieldNames[rapid.IntRange(0, len(fieldNames)-1).Draw(t, "fieldname")]
			if chance(t, "dictname", 12) {
				nm = dStr(t, "fieldname")
			}
			for used[nm] {
				nm += pick(t, "fsuffix", "1", "_", "z")
			}
			used[nm] = true
			f := AField{name: nm}
			f.typ = s.expr(t, o, i, j == n-1 && ext == 0 && !baseExt && !o.noExt && !d.noExt)
			if j >= n {
				f.typ.ext = true
				if minSizeE(f.typ, 0) == 0 {
					f.typ = gBuiltin(t)
					f.typ.ext = true
				}
				f.typ.rev = f.typ.opt && rapid.IntRange(0, 5).Draw(t, "rev") == 0
			}
			if f.typ.def != nil && f.typ.def.hasExt {
				d.hasExt = true
			}
			d.fields = append(d.fields, f)
		}
		if o.noEmpty && minSizeD(d, 0) == 0 {
			nm := "pad"
			for used[nm] {
				nm += "_"
			}
			d.fields = append([]AField{{nm, gBuiltin(t)}}, d.fields...)
		}
	}
}

func minSizeE(e AE, depth int) int {
	if e.opt || e.arr || e.builtin != nil {
		return 1
	}
	return minSizeD(e.def, depth+1)
}

func minSizeD(d *AD, depth int) int {
	if depth > 20 {
		return 1
	}
	switch d.kind {
	case dVariant:
		return 1
	case dAlias:
		return minSizeE(d.alias, depth)
	}
	n := 0
	for _, f := range d.all() {
		if f.typ.ext {
			break
		}
		n += minSizeE(f.typ, depth)
	}
	return n
}

func (s *Schema) build(t *rapid.T) {
	a := &chain.Abi{Version: "eosio::abi/1.2"}
	for _, d := range s.defs {
		switch d.kind {
		case dStruct:
			st := chain.AbiStruct{Name: d.name}
			if d.base != nil {
				st.Base = d.base.name
			}
			for _, f := range d.fields {
				st.Fields = append(st.Fields, chain.AbiField{Name: f.name, Type: f.typ.name()})
			}
			a.Structs = append(a.Structs, st)
		case dVariant:
			v := chain.AbiVariant{Name: d.name}
			for _, e := range d.alts {
				v.Types = append(v.Types, e.name())
			}
			a.Variants = append(a.Variants, v)
		case dAlias:
			a.Types = append(a.Types, chain.AbiType{NewTypeName: d.name, Type: d.alias.name()})
		}
	}
	for _, d := range s.defs {
		n := gName(t, "action")
		if _, ok := s.actions[n]; ok {
			continue
		}
		s.actions[n] = d
		a.Actions = append(a.Actions, chain.AbiAction{Name: n, Type: d.name})
	}
	// the order of definitions does not matter
	if rapid.Bool().Draw(t, "reverse") {
		rev(a.Structs)
		rev(a.Types)
		rev(a.Variants)
		rev(a.Actions)
	}
	s.abi = a
}

func rev[T any](s []T) {
	for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
		s[i], s[j] = s[j], s[i]
	}
}

// ---- values ---------------------------------------------------------------------

// ANode is a place in a generated value that can be overwritten.
type ANode struct {
	typ     AE
	kind    string // builtin, array, struct, variant
	set     func(interface{})
	del     func() // for struct fields
	path    string
	nilable bool
	ext     bool // an extension field may be left out
	cur     func() interface{}
}

// AV is a generated value of a schema type.
type AV struct {
	in    interface{} // what is passed to Encode
	out   interface{} // what Decode must return
	wire  []byte
	cuts  map[int]int // where the data may end: offset -> extensions absent
	nodes []*ANode
}

type agen struct {
	t        *rapid.T
	budget   int
	cuts     map[int]bool
	interest bool
	nodes    []*ANode
	noAbsent bool
	wire     []byte
	stopped  bool // an extension was left out: nothing may follow
	big      bool
}

func (g *agen) raw(b []byte) { g.wire = append(g.wire, b...) }

// value draws a value, appending its bytes to g.wire.
func (g *agen) value(e AE, depth int, n *ANode) (in, out interface{}) {
	n.typ, n.nilable = e, n.nilable || e.nilable()
	g.nodes = append(g.nodes, n)
	if e.opt {
		present := rapid.Bool().Draw(g.t, "present")
		if depth > 6 || g.budget < 0 {
			present = false
		}
		if !present {
			g.raw([]byte{0})
			n.kind = "nil"
			return nil, nil
		}
		g.raw([]byte{1})
		g.interest = true
	}
	if e.arr {
		c := rapid.IntRange(0, 3).Draw(g.t, "count")
		if depth <= 1 && chance(g.t, "long", 20) {
			c = pick(g.t, "longcount", 127, 128, 129, 200, 300, dLen(g.t, "count", 2000))
		}
		if depth > 6 || g.budget < 0 {
			c = 0
		}
		g.raw(ref.W(func(w *ref.Wire) { w.Varuint(uint32(c)) }))
		ins, outs := make([]interface{}, c), make([]interface{}, c)
		var ews [][]byte
		for i := 0; i < c; i++ {
			if i >= 4 {
				j := mixer(uint64(c), uint64(i), 4)
				ins[i], outs[i] = ins[j], outs[j]
				g.raw(ews[j])
				continue
			}
			i := i
			start := len(g.wire)
			ins[i], outs[i] = g.inner(e, depth+1, &ANode{path: fmt.Sprintf("%s[%d]", n.path, i), set: func(v interface{}) { ins[i] = v }, cur: func() interface{} { return ins[i] }}, true)
			ews = append(ews, append([]byte{}, g.wire[start:]...))
			g.budget -= len(ews[i])
		}
		n.kind = "array"
		if c > 0 {
			g.interest = true
		}
		return ins, outs
	}
	return g.inner(e, depth, n, false)
}

func (g *agen) inner(e AE, depth int, n *ANode, elem bool) (in, out interface{}) {
	if elem {
		x := e
		x.arr, x.opt, x.ext, x.rev = false, false, false, false
		n.typ, n.nilable = x, x.nilable()
		g.nodes = append(g.nodes, n)
	}
	if e.builtin != nil {
		n.kind = "builtin"
		var cv CV
		for i := 0; ; i++ {
			cv = e.builtin.gen(g.t)
			if g.big || len(cv.Wire) < 400 || i > 2 {
				break
			}
		}
		if cv.Interest {
			g.interest = true
		}
		g.budget -= len(cv.Wire)
		g.raw(cv.Wire)
		in, out = cv.V, cv.V
		switch v := cv.V.(type) {
		case chain.Uint64:
			if rapid.Bool().Draw(g.t, "plain") {
				in = uint64(v)
			}
		case chain.Bytes:
			if rapid.Bool().Draw(g.t, "plain") {
				in = []byte(v)
			}
		}
		return in, out
	}
	d := e.def
	switch d.kind {
	case dAlias:
		// the node stands for what the alias means
		return g.value(d.alias, depth, n)
	case dVariant:
		n.kind = "variant"
		i := rapid.IntRange(0, len(d.alts)-1).Draw(g.t, "alt")
		g.raw(ref.W(func(w *ref.Wire) { w.Varuint(uint32(i)) }))
		ins, outs := make([]interface{}, 2), make([]interface{}, 2)
		ins[0], outs[0] = d.alts[i].name(), d.alts[i].name()
		ins[1], outs[1] = g.value(d.alts[i], depth+1, &ANode{path: n.path + "<" + d.alts[i].name() + ">", set: func(v interface{}) { ins[1] = v }, cur: func() interface{} { return ins[1] }})
		g.interest = true
		return ins, outs
	}
	n.kind = "struct"
	ins, outs := map[string]interface{}{}, map[string]interface{}{}
	fs := d.all()
	for _, f := range fs {
		f := f
		if f.typ.ext {
			if g.stopped {
				continue
			}
			g.cuts[len(g.wire)] = true
			if !g.noAbsent && rapid.IntRange(0, 3).Draw(g.t, "absentext") == 3 {
				g.stopped = true
				g.interest = true
				continue
			}
		}
		x := f.typ
		x.ext, x.rev = false, false
		fi, fo := g.value(x, depth+1, &ANode{ext: f.typ.ext, path: n.path + "." + f.name, set: func(v interface{}) { ins[f.name] = v }, del: func() { delete(ins, f.name) }, cur: func() interface{} { return ins[f.name] }})
		ins[f.name], outs[f.name] = fi, fo
	}
	// fields that the type does not have are not looked at
	if chance(g.t, "extra", 12) {
		nm := "no such field"
		ins[nm] = struct{}{}
	}
	return ins, outs
}

// top draws a type expression to use at the top level: any definition, also as
// a list or option, or a builtin.
func (s *Schema) top(t *rapid.T) AE {
	if chance(t, "topbuiltin", 10) {
		e := gBuiltin(t)
		e.arr = rapid.Bool().Draw(t, "arr")
		e.opt = rapid.Bool().Draw(t, "opt")
		return e
	}
	// later definitions are richer
	i := len(s.defs) - 1
	if chance(t, "other", 3) {
		i = rapid.IntRange(0, len(s.defs)-1).Draw(t, "top")
	}
	e := AE{def: s.defs[i]}
	if e.def.hasExt {
		return e
	}
	switch rapid.IntRange(0, 7).Draw(t, "topwrap") {
	case 5:
		e.arr = true
	case 6:
		e.opt = !e.nilable()
	case 7:
		e.arr, e.opt = true, true
	}
	return e
}

type aCase struct {
	s        *Schema
	e        AE
	in, out  interface{}
	wire     []byte
	cuts     map[int]bool
	nodes    []*ANode
	interest bool
	root     *interface{}
}

func (c *aCase) String() string {
	return c.s.text() + "; " + c.e.name() + " = " + show(c.out)
}

// key is a cheap identification of the case.
func (c *aCase) key() string { return c.s.text() + "; " + c.e.name() + " = " + hexs(c.wire) }

func gACase(t *rapid.T, o schemaOpts, noAbsent bool) *aCase {
	s := gSchema(t, o)
	e := s.top(t)
	return gAValue(t, s, e, noAbsent)
}

func gAValue(t *rapid.T, s *Schema, e AE, noAbsent bool) *aCase {
	g := &agen{t: t, budget: 1500, cuts: map[int]bool{}, noAbsent: noAbsent, big: chance(t, "big", 40)}
	c := &aCase{s: s, e: e}
	var root interface{}
	c.root = &root
	in, out := g.value(e, 0, &ANode{path: "$", set: func(v interface{}) { *c.root = v }, cur: func() interface{} { return *c.root }})
	root = in
	c.in, c.out, c.wire, c.cuts, c.nodes, c.interest = in, out, g.wire, g.cuts, g.nodes, g.interest
	return c
}

func abiEnc(a *chain.Abi, name string, v interface{}) ([]byte, error) {
	var b bytes.Buffer
	err := a.Encode(&b, name, v)
	return b.Bytes(), err
}

func abiDec(a *chain.Abi, name string, in []byte) (v interface{}, left int, err error) {
	r := bytes.NewReader(in)
	v, err = a.Decode(r, name)
	return v, r.Len(), err
}

var _ = sort.Strings
