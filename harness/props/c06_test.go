package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"testing"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
	"pgregory.net/rapid"
)

// ---- C06: streaming and chunking ------------------------------------------------

func gChunks(t *rapid.T, data []byte) (*chunkReader, string) {
	var sizes []int
	switch rapid.IntRange(0, 4).Draw(t, "chunks") {
	case 0:
		sizes = []int{1}
	case 1: // everything that is asked for
	case 2:
		n := rapid.IntRange(1, 6).Draw(t, "nsizes")
		for i := 0; i < n; i++ {
			sizes = append(sizes, rapid.IntRange(0, 9).Draw(t, "size"))
		}
	case 3:
		sizes = []int{pick(t, "onesize", 2, 3, 7, 8, 64, 1000)}
	case 4:
		sizes = []int{0, 1}
	}
	if len(data) > 5000 && len(sizes) > 0 {
		sizes = append(sizes, 4000)
	}
	r := &chunkReader{data: data, sizes: sizes, eofWithData: rapid.Bool().Draw(t, "eofwithdata")}
	return r, fmt.Sprintf("chunks %v eof-with-data %v", sizes, r.eofWithData)
}

type item struct {
	v   reflect.Value
	w   *WT
	rt  reflect.Type
	abi *aCase
}

func gItem(t *rapid.T) item {
	var g *GT
	switch rapid.IntRange(0, 4).Draw(t, "item") {
	case 0, 1:
		g = gLeafType(t)
	case 2:
		c := gACase(t, schemaOpts{noExt: true, maxDefs: 3}, true)
		return item{abi: c, w: &WT{raw: c.wire}}
	default:
		g = gType(t, 2, gOpts{maps: true})
	}
	x := &vgen{t: t, budget: 1500}
	v, w := x.value(g, 0)
	return item{v: v, w: w, rt: g.RT}
}

func TestC06(t *testing.T) {
	largeC06(t)
	check(t, "stream", 5000, func(t *rapid.T) {
		n := rapid.IntRange(1, 6).Draw(t, "nitems")
		var items []item
		key := ""
		sink, written := gSink(t)
		e := chain.NewEncoder(sink)
		var ends []int
		for i := 0; i < n; i++ {
			it := gItem(t)
			items = append(items, it)
			before := len(written())
			var err error
			if it.abi != nil {
				err = it.abi.s.abi.Encode(sink, it.abi.e.name(), it.abi.in)
				key += " abi:" + it.abi.e.name()
			} else {
				err = e.Encode(it.v.Interface())
				key += " " + clip(it.rt.String(), 60)
			}
			if err != nil {
				t.Fatalf("encode: %v", err)
			}
			if rest, ok := it.w.match(written()[before:]); !ok || len(rest) != 0 {
				t.Fatalf("item %d of the stream (%s) occupies %s, on its own it is %s", i, key, hexs(written()[before:]), hexs(it.w.flat()))
			}
			ends = append(ends, len(written()))
		}
		data := append([]byte{}, written()...)
		tail := rapid.IntRange(0, 3).Draw(t, "ntail")
		data = append(data, make([]byte, tail)...)
		r, how := gSource(t, data)
		stats.Case("stream of values", n > 1, key+" "+how+" "+hexs(data))
		d := chain.NewDecoder(r.Reader)
		for i, it := range items {
			var ok bool
			var err error
			var got interface{}
			if it.abi != nil {
				// an ABI decode reads from the same stream
				got, err = it.abi.s.abi.Decode(r.Reader, it.abi.e.name())
				ok = sameI(got, it.abi.out)
			} else {
				p := reflect.New(it.rt)
				err = d.Decode(p.Interface())
				got = p.Elem().Interface()
				ok = same(p.Elem(), it.v)
			}
			if err != nil || !ok {
				t.Fatalf("item %d of %s, %s, data %s: err %v, got %s", i, key, how, hexs(data), err, show(got))
			}
			if used := len(data) - r.left(); used != ends[i] {
				t.Fatalf("item %d of %s, %s: %d bytes consumed, it ends at %d", i, key, how, used, ends[i])
			}
		}
		if tail > 0 {
			return
		}
		// at the end of the stream there is io.EOF, and no more values
		it := pick(t, "last", items...)
		var err error
		if it.abi != nil {
			_, err = it.abi.s.abi.Decode(r.Reader, it.abi.e.name())
		} else {
			err = d.Decode(reflect.New(it.rt).Interface())
		}
		if len(it.w.flat()) > 0 && !errors.Is(err, io.EOF) {
			t.Fatalf("decoding %s again at the end of %s, %s: err %v, want io.EOF", hexs(it.w.flat()), key, how, err)
		}
	})
	check(t, "extensions", 1200, func(t *rapid.T) {
		// a value whose extensions are absent, whatever the reader does at the end
		if rapid.Bool().Draw(t, "abi") {
			c := gACase(t, schemaOpts{}, false)
			r, how := gSource(t, c.wire)
			stats.Case("chunked ABI decode", c.interest, c.key()+" "+how)
			got, err := c.s.abi.Decode(r.Reader, c.e.name())
			if err != nil || !sameI(got, c.out) || r.left() != 0 {
				t.Fatalf("%s from %s with %s: %s, err %v", c.e.name(), hexs(c.wire), how, show(got), err)
			}
			return
		}
		g := gStructType(t, 2, gOpts{maps: true, extensions: true}, true)
		x := &vgen{t: t, budget: 1500}
		_, w := x.value(g, 0)
		in := w.flat()
		if len(x.extStarts) > 0 {
			in = in[:x.extStarts[rapid.IntRange(0, len(x.extStarts)-1).Draw(t, "ext")]]
		}
		want := reflect.New(g.RT)
		if _, err := dec(in, want.Interface()); err != nil {
			t.Fatalf("decode %s: %v", g, err)
		}
		r, how := gSource(t, in)
		p := reflect.New(g.RT)
		stats.Case("chunked decode with absent extensions", x.interest, keyOf(g, in)+how)
		if err := chain.NewDecoder(r.Reader).Decode(p.Interface()); err != nil || !same(p.Elem(), want.Elem()) {
			t.Fatalf("%s from %s with %s: %s, err %v", g, hexs(in), how, show(p.Elem().Interface()), err)
		}
	})
	check(t, "histories", 600, func(t *rapid.T) {
		// one encoder and one decoder through a long history of calls of every
		// kind, refused ones included
		type op struct {
			kind string // "value", "method" or "refused"
			v    interface{}
			name string // primitive, for "method"
			w    *WT
		}
		var ops []op
		key := ""
		n := rapid.IntRange(1, 8).Draw(t, "nops")
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 5).Draw(t, "op") {
			case 0, 1:
				cv := gCV(t, primGens)
				if len(cv.Wire) > 300 {
					continue
				}
				ops = append(ops, op{kind: "method", v: cv.V, name: cv.Name, w: &WT{raw: cv.Wire}})
				key += " write " + cv.Name
			case 2, 3, 4:
				g := gType(t, 2, gOpts{maps: true})
				x := &vgen{t: t, budget: 300}
				v, w := x.value(g, 0)
				ops = append(ops, op{kind: "value", v: v.Interface(), w: w})
				key += " " + clip(g.RT.String(), 60)
			case 5:
				o := op{kind: "refused"}
				o.name = pick(t, "refused", "chan", "func", "nil pointer", "too large", "nil")
				key += " refused " + o.name
				ops = append(ops, o)
			}
		}
		times := pick(t, "times", 1, 2, 3, 40, 400)
		size := 1
		for _, o := range ops {
			if o.w != nil {
				size += len(o.w.flat())
			}
		}
		times = min(times, 1+1000000/size)
		sink, written := gSink(t)
		e := chain.NewEncoder(sink)
		var ends []int
		for r := 0; r < times; r++ {
			for i, o := range ops {
				before := len(written())
				var err error
				switch o.kind {
				case "value":
					err = e.Encode(o.v)
				case "method":
					err = writePrim(e, o.name, o.v)
				case "refused":
					switch o.name {
					case "chan":
						err = e.Encode(make(chan int))
					case "func":
						err = e.Encode([1]func(){})
					case "nil pointer":
						err = e.Encode((*struct{ A uint8 })(nil))
					case "too large":
						err = e.WriteVaruint(1 << 32)
					case "nil":
						err = e.Encode(nil)
					}
					if err == nil || len(written()) != before {
						t.Fatalf("call %d, encoding %s after %s: err %v, %d bytes written", i, o.name, key, err, len(written())-before)
					}
					ends = append(ends, len(written()))
					continue
				}
				if rest, ok := o.w.match(written()[before:]); err != nil || !ok || len(rest) != 0 {
					t.Fatalf("repetition %d, call %d of%s: err %v, written %s, want %s", r, i, key, err, hexs(written()[before:]), hexs(o.w.flat()))
				}
				ends = append(ends, len(written()))
			}
		}
		data := append([]byte{}, written()...)
		r, how := gSource(t, data)
		stats.Case("histories of calls", len(ops)*times > 1, fmt.Sprint(key, " x", times, " ", how, hexs(data)))
		d := chain.NewDecoder(r.Reader)
		for rep, at := 0, 0; rep < times; rep++ {
			for i, o := range ops {
				switch o.kind {
				case "value":
					p := reflect.New(reflect.TypeOf(o.v))
					if err := d.Decode(p.Interface()); err != nil || !same(p.Elem(), reflect.ValueOf(o.v)) {
						t.Fatalf("repetition %d, call %d of%s, %s: err %v, read %s, want %s", rep, i, key, how, err, show(p.Elem().Interface()), show(o.v))
					}
				case "method":
					v, err := readPrim(d, o.name)
					if err != nil || !sameI(v, o.v) {
						t.Fatalf("repetition %d, call %d of%s, %s: err %v, read %s, want %s", rep, i, key, how, err, show(v), show(o.v))
					}
				case "refused":
					var err error
					switch o.name {
					case "chan":
						err = d.Decode(new(chan int))
					case "func":
						err = d.Decode(new([1]func()))
					case "nil pointer":
						err = d.Decode((*struct{ A uint8 })(nil))
					case "too large":
						err = d.Decode(uint8(5))
					case "nil":
						err = d.Decode(struct{ A uint8 }{})
					}
					if err == nil {
						t.Fatalf("repetition %d, call %d of%s: no error", rep, i, key)
					}
				}
				if used := len(data) - r.left(); used != ends[at] {
					t.Fatalf("repetition %d, call %d of%s, %s: %d bytes consumed, it ends at %d", rep, i, key, how, used, ends[at])
				}
				at++
			}
		}
	})
	check(t, "long", 60, func(t *rapid.T) {
		// longer than any internal buffer
		n := rapid.IntRange(60000, 400000).Draw(t, "n")
		b := make([]byte, n)
		expand(b, rapid.Uint64().Draw(t, "seed"))
		w, _ := enc(chain.Bytes(b))
		in := append(append([]byte{}, w...), w...)
		r, how := gChunks(t, in)
		if len(r.sizes) > 0 {
			r.sizes = append(r.sizes, 5000)
		}
		stats.Case("long byte strings", true, fmt.Sprint(n, how))
		d := chain.NewDecoder(r)
		for i := 0; i < 2; i++ {
			var got chain.Bytes
			if err := d.Decode(&got); err != nil || !bytes.Equal(got, b) || len(r.data) != len(in)-(i+1)*len(w) {
				t.Fatalf("%d bytes with %s: err %v, got %d bytes, %d left", n, how, err, len(got), len(r.data))
			}
		}
	})
}

// ---- C07: truncation --------------------------------------------------------------

// cutsOf gives the prefix lengths to try: all of them, or a spread.
func cutsOf(t *rapid.T, n int, must []int) []int {
	if n <= 220 {
		c := make([]int, n)
		for i := range c {
			c[i] = i
		}
		return c
	}
	seen := map[int]bool{}
	var c []int
	add := func(i int) {
		if i >= 0 && i < n && !seen[i] {
			seen[i] = true
			c = append(c, i)
		}
	}
	for i := 0; i < 80; i++ {
		add(i)
		add(n - 1 - i)
	}
	for _, m := range must {
		for d := -2; d <= 2; d++ {
			add(m + d)
		}
	}
	for i := 0; i < 12; i++ {
		add(rapid.IntRange(0, n-1).Draw(t, "cut"))
	}
	add(65536)
	add(65537)
	add(65538)
	return c
}

func TestC07(t *testing.T) {
	largeC07(t)
	typed := func(t *rapid.T, g *GT, x *vgen, w *WT, label string) {
		in := w.flat()
		ext := map[int]bool{}
		for _, s := range x.extStarts {
			ext[s] = true
		}
		for _, cut := range cutsOf(t, len(in), x.extStarts) {
			p := reflect.New(g.RT)
			_, err := dec(in[:cut], p.Interface())
			stats.Case(label, true, fmt.Sprint(cut, " of ", keyOf(g, in)))
			if ext[cut] {
				if err != nil {
					t.Fatalf("%s cut at an extension (%d of %d bytes) %s: %v", g, cut, len(in), hexs(in), err)
				}
				continue
			}
			if err == nil {
				t.Fatalf("%s decodes from the first %d of %d bytes of %s: %s", g, cut, len(in), hexs(in), show(p.Elem().Interface()))
			}
		}
		for i := 0; i < 2 && len(in) > 0; i++ {
			cut := rapid.IntRange(0, len(in)-1).Draw(t, "cut")
			r, how := gSource(t, in[:cut])
			p := reflect.New(g.RT)
			stats.Case(label+", other readers", true, fmt.Sprint(cut, how, " of ", keyOf(g, in)))
			if err := chain.NewDecoder(r.Reader).Decode(p.Interface()); (err == nil) != ext[cut] {
				t.Fatalf("%s from the first %d of %d bytes of %s, %s: err %v, %s", g, cut, len(in), hexs(in), how, err, show(p.Elem().Interface()))
			}
		}
	}
	check(t, "chain types", 1500, func(t *rapid.T) {
		g := gLeafType(t)
		x := &vgen{t: t, budget: 1000}
		_, w := x.value(g, 0)
		typed(t, g, x, w, "chain and primitive types")
	})
	check(t, "go types", 1500, func(t *rapid.T) {
		g, _, w, x := gGoValue(t, 3, gOpts{maps: true, variants: true, extensions: true})
		typed(t, g, x, w, "composite types")
	})
	check(t, "abi", 1500, func(t *rapid.T) {
		c := gACase(t, schemaOpts{}, false)
		var must []int
		for m := range c.cuts {
			must = append(must, m)
		}
		for _, cut := range cutsOf(t, len(c.wire), must) {
			got, _, err := abiDec(c.s.abi, c.e.name(), c.wire[:cut])
			stats.Case("through an ABI", true, fmt.Sprint(cut, " of ", c.key()))
			if c.cuts[cut] {
				if err != nil {
					t.Fatalf("%s\ncut at an extension (%d of %d bytes): %v", c, cut, len(c.wire), err)
				}
				// what was there before the cut is unchanged
				if !subsetOf(got, c.out) {
					t.Fatalf("%s\ncut at an extension (%d of %d bytes) gives %s", c, cut, len(c.wire), show(got))
				}
				continue
			}
			if err == nil {
				t.Fatalf("%s\ndecodes from the first %d of %d bytes %s: %s", c, cut, len(c.wire), hexs(c.wire), show(got))
			}
		}
		for i := 0; i < 2 && len(c.wire) > 0; i++ {
			cut := rapid.IntRange(0, len(c.wire)-1).Draw(t, "cut")
			r, how := gSource(t, c.wire[:cut])
			stats.Case("through an ABI, other readers", true, fmt.Sprint(cut, how, " of ", c.key()))
			if got, err := c.s.abi.Decode(r.Reader, c.e.name()); (err == nil) != c.cuts[cut] {
				t.Fatalf("%s\nfrom the first %d of %d bytes %s, %s: err %v, %s", c, cut, len(c.wire), hexs(c.wire), how, err, show(got))
			}
		}
	})
	check(t, "primitives", 600, func(t *rapid.T) {
		cv := gSmallCV(t, primGens, 70000)
		for _, cut := range cutsOf(t, len(cv.Wire), nil) {
			d := chain.NewDecoder(bytes.NewReader(cv.Wire[:cut]))
			stats.Case("read methods", true, fmt.Sprint(cut, " of ", cv.Name, hexs(cv.Wire)))
			if v, err := readPrim(d, cv.Name); err == nil {
				t.Fatalf("reading a %s from the first %d of %d bytes %s gives %s", cv.Name, cut, len(cv.Wire), hexs(cv.Wire), show(v))
			}
		}
	})
}

// subsetOf: got equals want except for map keys missing from got.
func subsetOf(got, want interface{}) bool {
	gm, ok1 := got.(map[string]interface{})
	wm, ok2 := want.(map[string]interface{})
	if !ok1 || !ok2 {
		return sameI(got, want)
	}
	for k, v := range gm {
		w, ok := wm[k]
		if !ok || !subsetOf(v, w) {
			return false
		}
	}
	return true
}

// ---- C09: faults ---------------------------------------------------------------------

func TestC09(t *testing.T) {
	largeC09(t)
	writes := func(t *rapid.T, label, what string, encode func(w io.Writer) error) {
		fault, wide := gFault(t), rapid.Bool().Draw(t, "wide")
		run := func(w *faultWriter) error {
			if wide {
				return encode(wideWriter{w})
			}
			return encode(w)
		}
		w := &faultWriter{failAt: -1, once: true}
		if err := run(w); err != nil {
			t.Fatalf("%s does not encode: %v", what, err)
		}
		calls := w.calls
		for _, k := range cutsOf(t, calls, nil) {
			for mode := 0; mode < 4; mode++ {
				w := &faultWriter{failAt: k, once: mode == 0 || mode == 3, part: mode == 2, full: mode == 3, err: fault}
				err := run(w)
				stats.Case(label, true, fmt.Sprintf("write %d of %d mode %d, %v: %s", k, calls, mode, fault, what))
				if !errors.Is(err, fault) {
					t.Fatalf("%s: write %d of %d failed with %v (mode %d) but the result is: %v", what, k, calls, fault, mode, err)
				}
			}
		}
	}
	reads := func(t *rapid.T, label, what string, in []byte, decode func(r io.Reader) error) {
		fault, wide := gFault(t), rapid.Bool().Draw(t, "wide")
		run := func(r *faultReader) error {
			if wide {
				return decode(wideReader{r})
			}
			return decode(r)
		}
		r := &faultReader{data: in, failAt: len(in) + 1}
		if err := run(r); err != nil {
			t.Fatalf("%s does not decode: %v", what, err)
		}
		for _, k := range cutsOf(t, len(in), nil) {
			for mode := 0; mode < 3; mode++ {
				r := &faultReader{data: in, failAt: k, once: mode == 0, with: mode == 2, err: fault}
				err := run(r)
				stats.Case(label, true, fmt.Sprintf("read at %d of %d mode %d, %v: %s", k, len(in), mode, fault, what))
				if r.failed == 0 {
					t.Fatalf("%s: the read at %d of %d was never made", what, k, len(in))
				}
				if !errors.Is(err, fault) {
					t.Fatalf("%s: the read at byte %d of %d failed with %v (mode %d) but the result is: %v", what, k, len(in), fault, mode, err)
				}
			}
		}
	}
	typed := func(t *rapid.T, g *GT, label string, variants bool) {
		x := &vgen{t: t, budget: 600}
		v, w := x.value(g, 0)
		what := keyOf(g, w.flat())
		if !variants {
			writes(t, label+", write faults", what, func(w io.Writer) error { return chain.NewEncoder(w).Encode(v.Interface()) })
		}
		reads(t, label+", read faults", what, w.flat(), func(r io.Reader) error {
			return chain.NewDecoder(r).Decode(reflect.New(g.RT).Interface())
		})
		if len(x.extStarts) > 0 {
			// a failing read where an extension would start is not an absent extension
			in := w.flat()
			k := x.extStarts[rapid.IntRange(0, len(x.extStarts)-1).Draw(t, "ext")]
			fault := gFault(t)
			r := &faultReader{data: in[:k], failAt: k, err: fault, with: rapid.Bool().Draw(t, "with")}
			err := chain.NewDecoder(r).Decode(reflect.New(g.RT).Interface())
			stats.Case(label+", read fault at an absent extension", true, what)
			if !errors.Is(err, fault) {
				t.Fatalf("%s: the read at the extension at byte %d failed with %v but the result is: %v", what, k, fault, err)
			}
		}
	}
	check(t, "leaves", 1200, func(t *rapid.T) { typed(t, gLeafType(t), "leaf types", false) })
	check(t, "go types", 900, func(t *rapid.T) {
		variants := chance(t, "variants", 4)
		o := gOpts{maps: true, extensions: true, variants: variants}
		typed(t, gStructType(t, 3, o, true), "composite types", variants)
	})
	check(t, "transactions", 250, func(t *rapid.T) {
		cv := gSmallCV(t, txGens, 3000)
		writes(t, "transactions, write faults", cv.Name+" "+hexs(cv.Wire), func(w io.Writer) error { return chain.NewEncoder(w).Encode(cv.V) })
		reads(t, "transactions, read faults", cv.Name+" "+hexs(cv.Wire), cv.Wire, func(r io.Reader) error { return chain.NewDecoder(r).Decode(newPtr(cv.V).Interface()) })
	})
	check(t, "primitives", 800, func(t *rapid.T) {
		cv := gSmallCV(t, primGens, 2000)
		what := cv.Name + " " + hexs(cv.Wire)
		writes(t, "write methods, write faults", what, func(w io.Writer) error { return writePrim(chain.NewEncoder(w), cv.Name, cv.V) })
		reads(t, "read methods, read faults", what, cv.Wire, func(r io.Reader) error {
			_, err := readPrim(chain.NewDecoder(r), cv.Name)
			return err
		})
	})
	check(t, "abi", 900, func(t *rapid.T) {
		c := gACase(t, schemaOpts{}, false)
		writes(t, "ABI, write faults", c.key(), func(w io.Writer) error { return c.s.abi.Encode(w, c.e.name(), c.in) })
		reads(t, "ABI, read faults", c.key(), c.wire, func(r io.Reader) error {
			_, err := c.s.abi.Decode(r, c.e.name())
			return err
		})
		if c.cuts[len(c.wire)] {
			fault := gFault(t)
			r := &faultReader{data: c.wire, failAt: len(c.wire), err: fault, with: rapid.Bool().Draw(t, "with")}
			_, err := c.s.abi.Decode(r, c.e.name())
			stats.Case("ABI, read fault at an absent extension", true, c.key())
			if !errors.Is(err, fault) {
				t.Fatalf("%s: the read at the absent extension failed with %v but the result is: %v", c, fault, err)
			}
		}
		if len(c.s.actions) > 0 && c.e.def != nil && !c.e.arr && !c.e.opt {
			for n, d := range c.s.actions {
				if d == c.e.def {
					writes(t, "action data, write faults", c.key(), func(w io.Writer) error { return c.s.abi.EncodeAction(w, n, c.in) })
				}
			}
		}
	})
	check(t, "long", 40, func(t *rapid.T) {
		n := rapid.IntRange(60000, 200000).Draw(t, "n")
		b := make([]byte, n)
		w, _ := enc(b)
		k := rapid.IntRange(0, len(w)-1).Draw(t, "at")
		for _, once := range []bool{true, false} {
			r := &faultReader{data: w, failAt: k, once: once}
			var got []byte
			stats.Case("long byte strings, read faults", true, fmt.Sprint(n, " ", k))
			if err := chain.NewDecoder(r).Decode(&got); !errors.Is(err, errFault) {
				t.Fatalf("%d bytes, read at %d failed: %v", n, k, err)
			}
		}
	})
}

var _ = abi.NewEncoder
