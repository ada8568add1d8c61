package props

import (
	"bytes"
	"encoding"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"sync"
	"testing"
	"time"

	"github.com/greymass/go-eosio/pkg/base58"
	"github.com/greymass/go-eosio/pkg/chain"
	"github.com/greymass/go-eosio/pkg/ripemd160"
	"pgregory.net/rapid"

	"verif/ref"
)

// A cop is one operation on shared, read-only inputs. It must not touch
// anything else: no locks, no statistics, which would order the goroutines.
type cop struct {
	what string
	run  func() string
	want string // what the reference says, "" if it says nothing
}

func errs(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

// together runs the operations from n goroutines at once, each goroutine in its
// own order, and compares every answer with the one the operation gives alone.
func together(fatalf func(string, ...any), ops []cop, n, rounds int) {
	results := make([][]string, n)
	panics := make([]string, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		g := g
		results[g] = make([]string, len(ops)*rounds)
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					panics[g] = fmt.Sprintf("%v", r)
				}
			}()
			<-start
			for r := 0; r < rounds; r++ {
				for k := range ops {
					// half of the goroutines go forwards, half backwards, all from different places
					i := (k + g*len(ops)/n) % len(ops)
					if g%2 == 1 {
						i = len(ops) - 1 - i
					}
					if r == 1 { // all on the same one
						i = k
					}
					results[g][r*len(ops)+i] = ops[i].run()
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	for g := range panics {
		if panics[g] != "" {
			fatalf("panic in goroutine %d of %d: %s", g, n, panics[g])
		}
	}
	for i, o := range ops {
		want := o.want
		if want == "" {
			want = o.run()
		}
		for g := range results {
			for r := 0; r < rounds; r++ {
				if got := results[g][r*len(ops)+i]; got != want {
					fatalf("%s gives %s in one of %d goroutines, %s alone", o.what, clip(got, 800), n, clip(want, 800))
				}
			}
		}
	}
}

// opsOn makes operations on a chain value or primitive.
func opsOn(t *rapid.T, cv CV) []cop {
	v, wire := cv.V, cv.Wire
	p := ptrTo(v)
	rt := reflect.TypeOf(v)
	wantEnc := fmt.Sprintf("%x ok", wire)
	all := []cop{
		{"encoding " + cv.Name, func() string { b, err := enc(v); return fmt.Sprintf("%x %s", b, errs(err)) }, wantEnc},
		{"encoding *" + cv.Name, func() string { b, err := enc(p); return fmt.Sprintf("%x %s", b, errs(err)) }, wantEnc},
		{"decoding " + cv.Name, func() string {
			q := reflect.New(rt)
			left, err := dec(wire, q.Interface())
			return fmt.Sprint(exact(q.Elem().Interface()), left, errs(err))
		}, ""},
		{"JSON of " + cv.Name, func() string { b, err := json.Marshal(v); return fmt.Sprintf("%s %s", b, errs(err)) }, ""},
	}
	if cv.JSON != "" {
		js := []byte(cv.JSON)
		all = append(all, cop{"reading JSON of " + cv.Name, func() string {
			q := reflect.New(rt)
			err := json.Unmarshal(js, q.Interface())
			return exact(q.Elem().Interface()) + errs(err)
		}, ""})
	}
	if m, ok := p.(encoding.TextMarshaler); ok {
		all = append(all, cop{"text of " + cv.Name, func() string { b, err := m.MarshalText(); return string(b) + errs(err) }, ""})
		if txt, err := m.MarshalText(); err == nil {
			all = append(all, cop{"parsing text of " + cv.Name, func() string {
				q := reflect.New(rt)
				err := q.Interface().(encoding.TextUnmarshaler).UnmarshalText(txt)
				return exact(q.Elem().Interface()) + errs(err)
			}, ""})
		}
	}
	if m, ok := p.(fmt.Stringer); ok {
		all = append(all, cop{"String of " + cv.Name, func() string { return m.String() }, ""})
	}
	if len(wire) > 0 {
		cut := wire[:len(wire)-1]
		all = append(all, cop{"decoding truncated " + cv.Name, func() string {
			q := reflect.New(rt)
			_, err := dec(cut, q.Interface())
			return errs(err)
		}, "error"})
	}
	switch x := p.(type) {
	case *chain.Action:
		all = append(all, cop{"Digest", func() string { return x.Digest().String() }, hexOf(ref.SHA256(wire))})
	case *chain.PublicKey:
		if x.Type == chain.K1 {
			all = append(all, cop{"LegacyString", func() string { return x.LegacyString("EOS") }, ""})
		}
	case *chain.Asset:
		all = append(all, cop{"FloatValue", func() string { return fmt.Sprint(x.FloatValue()) }, ""})
	case *chain.Uint128:
		bi := ref.Uint128Big(x.Lo, x.Hi)
		all = append(all, cop{"Uint128 conversions", func() string {
			return fmt.Sprint(x.BigInt(), chain.NewUint128(bi), x.Bytes(binary.BigEndian))
		}, ""})
	case *chain.Int128:
		bi := ref.Int128Big(x.Lo, x.Hi)
		all = append(all, cop{"Int128 conversions", func() string {
			return fmt.Sprint(x.BigInt(), chain.NewInt128(bi), x.Bytes(binary.BigEndian))
		}, ""})
	case *chain.TimePoint:
		all = append(all, cop{"Time", func() string { return x.Time().String() + fmt.Sprint(chain.NewTimePoint(x.Time())) }, ""})
	case *chain.TimePointSec:
		all = append(all, cop{"Time", func() string { return x.Time().String() + fmt.Sprint(chain.NewTimePointSec(x.Time())) }, ""})
	case *chain.BlockTimestamp:
		all = append(all, cop{"Time", func() string { return x.Time().String() + fmt.Sprint(chain.NewBlockTimestamp(x.Time())) }, ""})
	}
	return all
}

func hexOf(b interface{}) string { return fmt.Sprintf("%x", b) }

func opsOnABI(t *rapid.T) (ops []cop, key string) {
	c := gACase(t, schemaOpts{maxDefs: 5}, false)
	a, in, wire, name := c.s.abi, *c.root, c.wire, c.e.name()
	ops = append(ops,
		cop{"ABI encoding", func() string { b, err := abiEnc(a, name, in); return fmt.Sprintf("%x %s", b, errs(err)) }, fmt.Sprintf("%x ok", wire)},
		cop{"ABI decoding", func() string {
			v, left, err := abiDec(a, name, wire)
			return fmt.Sprint(exact(v), left, errs(err))
		}, ""},
		cop{"JSON of an ABI", func() string { b, err := json.Marshal(a); return string(b) + errs(err) }, ""},
		cop{"encoding an ABI", func() string { b, err := enc(a); return fmt.Sprintf("%x %s", b, errs(err)) }, ""},
		cop{"ABI lookups", func() string {
			s := ""
			for _, d := range a.Structs {
				s += fmt.Sprint(a.GetStruct(d.Name) != nil, a.GetVariant(d.Name) != nil, a.GetType(d.Name) != nil)
			}
			for _, d := range a.Actions {
				s += fmt.Sprint(a.GetAction(d.Name))
			}
			return s
		}, ""},
		cop{"encoding an unknown type", func() string { _, err := abiEnc(a, "no such type", in); return errs(err) }, "error"},
		cop{"decoding an unknown type", func() string { _, _, err := abiDec(a, "no such type", wire); return errs(err) }, "error"},
	)
	if len(wire) > 0 {
		cut := wire[:len(wire)/2]
		ops = append(ops, cop{"ABI decoding of truncated data", func() string {
			v, left, err := abiDec(a, name, cut)
			return fmt.Sprint(exact(v), left, errs(err))
		}, ""})
	}
	for _, n := range sortedNames(c.s.actions) {
		ac := gAValue(t, c.s, AE{def: c.s.actions[n]}, false)
		act := chain.Action{Account: 7, Name: n, Authorization: []chain.PermissionLevel{{Actor: 1, Permission: 2}}, Data: ac.wire}
		ain := *ac.root
		ops = append(ops,
			cop{"Action.Decode", func() string { v, err := act.Decode(a); return exact(v) + errs(err) }, ""},
			cop{"EncodeAction", func() string {
				var b bytes.Buffer
				err := a.EncodeAction(&b, n, ain)
				return fmt.Sprintf("%x %s", b.Bytes(), errs(err))
			}, fmt.Sprintf("%x ok", ac.wire)},
			cop{"Digest", func() string { return act.Digest().String() }, ""})
	}
	return ops, c.key()
}

func opsOnBytes(t *rapid.T) []cop {
	data := gBytes(t, "data", pick(t, "most", 200, 200, 200, 3000))
	suffix := pick(t, "suffix", "", "K1", "R1", "WA")
	b58 := ref.Base58(data)
	chk := base58.CheckEncode(data)
	chkE := base58.CheckEncodeEosio(data, suffix)
	return []cop{
		{"base58.Encode", func() string { return base58.Encode(data) }, b58},
		{"base58.Decode", func() string { return string(base58.Decode(b58)) }, ""},
		{"base58.CheckEncode", func() string { return base58.CheckEncode(data) }, ""},
		{"base58.CheckDecode", func() string { b, err := base58.CheckDecode(chk); return string(b) + errs(err) }, string(data) + "ok"},
		{"base58.CheckEncodeEosio", func() string { return base58.CheckEncodeEosio(data, suffix) }, ""},
		{"base58.CheckDecodeEosio", func() string { b, err := base58.CheckDecodeEosio(chkE, suffix); return string(b) + errs(err) }, string(data) + "ok"},
		{"base58.CheckDecodeEosio of bad text", func() string { _, err := base58.CheckDecodeEosio(chkE, suffix+"?"); return errs(err) }, ""},
		{"ripemd160", func() string {
			h := ripemd160.New()
			_, _ = h.Write(data)
			a := h.Sum(nil)
			_, _ = h.Write(data)
			return fmt.Sprintf("%x %x", a, h.Sum(nil))
		}, fmt.Sprintf("%x %x", ref.RIPEMD160(data), ref.RIPEMD160(append(append([]byte{}, data...), data...)))},
		{"Checksum160Digest", func() string { c := chain.Checksum160Digest(data); return fmt.Sprintf("%x", c[:]) }, hexOf(ref.RIPEMD160(data))},
		{"Checksum256Digest", func() string { c := chain.Checksum256Digest(data); return fmt.Sprintf("%x", c[:]) }, hexOf(ref.SHA256(data))},
		{"Checksum512Digest", func() string { c := chain.Checksum512Digest(data); return fmt.Sprintf("%x", c[:]) }, ""},
	}
}

func sortedNames[T any](m map[chain.Name]T) []chain.Name {
	var ks []chain.Name
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

// parsing and rendering from plain text, used cold (first thing in the process)
// and with generated text
func textOps(s string) []cop {
	b := []byte(s)
	ops := []cop{
		{"N", func() string { return chain.N(s).String() }, ""},
		{"NewPublicKeyFromString", func() string {
			k, err := chain.NewPublicKeyFromString(s)
			if err != nil {
				return "error"
			}
			return k.String()
		}, ""},
		{"NewSignatureString", func() string {
			k, err := chain.NewSignatureString(s)
			if err != nil {
				return "error"
			}
			return k.String()
		}, ""},
	}
	for _, v := range []encoding.TextUnmarshaler{new(chain.Name), new(chain.Asset), new(chain.Symbol), new(chain.SymbolCode), new(chain.TimePoint), new(chain.TimePointSec), new(chain.BlockTimestamp),
		new(chain.Bytes), new(chain.Blob), new(chain.Checksum160), new(chain.Checksum256), new(chain.Checksum512), new(chain.Float128), new(chain.Int128), new(chain.Uint128), new(chain.PublicKey), new(chain.Signature)} {
		rt := reflect.TypeOf(v).Elem()
		ops = append(ops, cop{"parsing " + rt.Name(), func() string {
			p := reflect.New(rt)
			err := p.Interface().(encoding.TextUnmarshaler).UnmarshalText(b)
			if err != nil {
				return "error"
			}
			out, err := p.Interface().(encoding.TextMarshaler).MarshalText()
			return string(out) + errs(err)
		}, ""})
	}
	return ops
}

func TestC24(t *testing.T) {
	t.Run("cold", func(t *testing.T) {
		// the first thing this process does with the library, so that anything
		// set up on first use is set up from several goroutines
		ts := time.Unix(1600000000, 0)
		ops := []cop{
			{"cold digest", func() string { c := chain.Checksum160Digest([]byte("x")); return c.String() }, ""},
			{"cold base58", func() string { return base58.Encode([]byte("abc")) + string(base58.Decode("ZiCa")) }, ""},
			{"cold uint128", func() string {
				return chain.NewUint128(big.NewInt(77)).String() + chain.NewInt128(big.NewInt(-77)).String()
			}, ""},
			{"cold times", func() string {
				return chain.NewTimePoint(ts).String() + chain.NewTimePointSec(ts).String() + chain.NewBlockTimestamp(ts).String()
			}, ""},
			{"cold action", func() string {
				a := chain.NewAction(chain.N("eosio"), chain.N("x"), nil, []byte{1})
				return a.Digest().String()
			}, ""},
			{"cold ABI", func() string {
				a := &chain.Abi{Structs: []chain.AbiStruct{{Name: "s", Fields: []chain.AbiField{{Name: "a", Type: "uint8"}, {Name: "n", Type: "name?"}, {Name: "q", Type: "asset[]"}}}}}
				v, _, err := abiDec(a, "s", []byte{1, 0, 0})
				if err != nil {
					return "error"
				}
				b, err := abiEnc(a, "s", v)
				return fmt.Sprintf("%x %v", b, err)
			}, ""},
			{"cold struct", func() string {
				v := Outer{}
				b, err := enc(v)
				var w Outer
				_, err2 := dec(b, &w)
				return fmt.Sprintf("%x %v %v", b, errs(err), errs(err2))
			}, ""},
		}
		for _, s := range []string{"eosio.token", "1.0000 EOS", "4,EOS", "EOS", "2020-01-01T00:00:00.500", "00ff", "aGVsbG8=", "-5",
			"PUB_K1_5AHoNnWetuDhKWSDx3WUf8W7Dg5xjHCMc4yHmmSiaJCFvvAgnB", "EOS5AHoNnWetuDhKWSDx3WUf8W7Dg5xjHCMc4yHmmSiaJCFpY5wCM",
			"SIG_K1_KfPLgpw35iX8nfDzhbcmSBCr7nEGNEYXgmmempQspDJYBCKuAEs5rm3s4ZuLJY428Ca8ZhvR2Dkwu118y3NAoMDxhicRj9"} {
			ops = append(ops, textOps(s)...)
		}
		// start at a different operation in every process
		k := shard * 37 % len(ops)
		ops = append(append([]cop{}, ops[k:]...), ops[:k]...)
		together(t.Fatalf, ops, 8, 2)
		for _, o := range ops {
			stats.Case("cold", true, o.what)
		}
	})
	run := func(t *rapid.T, label, key string, ops []cop) {
		if len(ops) == 0 {
			return
		}
		// a random selection, in random order
		perm := rapid.Permutation(ops).Draw(t, "order")
		if len(perm) > 12 {
			perm = perm[:12]
		}
		whats := ""
		for _, o := range perm {
			whats += o.what + "; "
		}
		n := pick(t, "goroutines", 8, 2, 16)
		Journal("%d goroutines running %s on %s", n, whats, key)
		stats.Case(label, len(perm) > 2, whats+key)
		together(t.Fatalf, perm, n, 2)
	}
	check(t, "chain values", 500, func(t *rapid.T) {
		var ops []cop
		key := ""
		for i := rapid.IntRange(1, 4).Draw(t, "values"); i > 0; i-- {
			cv := gSmallCV(t, allCV, 1500)
			ops = append(ops, opsOn(t, cv)...)
			key += cv.Name + hexs(cv.Wire) + " "
		}
		run(t, "chain values", key, ops)
	})
	check(t, "go types", 400, func(t *rapid.T) {
		var ops []cop
		key := ""
		for i := rapid.IntRange(1, 3).Draw(t, "values"); i > 0; i-- {
			g, v, w, _ := gGoValue(t, 3, gOpts{maps: true})
			wire := w.flat()
			if len(wire) > 20000 {
				continue
			}
			key += keyOf(g, wire) + " "
			vi, p := v.Interface(), v.Addr().Interface()
			if !w.multiMap() {
				ops = append(ops,
					cop{"encoding " + g.String(), func() string { b, err := enc(vi); return fmt.Sprintf("%x %s", b, errs(err)) }, fmt.Sprintf("%x ok", wire)},
					cop{"encoding *" + g.String(), func() string { b, err := enc(p); return fmt.Sprintf("%x %s", b, errs(err)) }, fmt.Sprintf("%x ok", wire)},
					cop{"plain encoding " + g.String(), func() string { b, err := plainEnc(vi); return fmt.Sprintf("%x %s", b, errs(err)) }, ""})
			}
			ops = append(ops, cop{"decoding " + g.String(), func() string {
				q := reflect.New(g.RT)
				left, err := dec(wire, q.Interface())
				return fmt.Sprint(exact(q.Elem().Interface()), left, errs(err))
			}, ""}, cop{"plain decoding " + g.String(), func() string {
				q := reflect.New(g.RT)
				left, err := plainDec(wire, q.Interface())
				return fmt.Sprint(exact(q.Elem().Interface()), left, errs(err))
			}, ""})
		}
		run(t, "go types", key, ops)
	})
	check(t, "abi", 400, func(t *rapid.T) {
		ops, key := opsOnABI(t)
		run(t, "abi", key, ops)
	})
	check(t, "bytes", 300, func(t *rapid.T) {
		ops := append(opsOnBytes(t), opsOnBytes(t)...)
		run(t, "bytes", "", ops)
	})
	check(t, "text", 400, func(t *rapid.T) {
		var ops []cop
		key := ""
		for i := 0; i < 2; i++ {
			cv := gSmallCV(t, textTypes, 300)
			if cv.JSON == "" {
				continue
			}
			s := cv.JSON[1 : len(cv.JSON)-1]
			if chance(t, "bad", 3) {
				s = gBadText(t, s)
			}
			key += s + " "
			ops = append(ops, textOps(s)...)
		}
		run(t, "text", key, ops)
	})
	check(t, "large", 60, func(t *rapid.T) {
		var ops []cop
		key := ""
		for i := rapid.IntRange(1, 3).Draw(t, "values"); i > 0; i-- {
			kind := bigKinds[rapid.IntRange(0, len(bigKinds)-1).Draw(t, "kind")]
			c := gBigOf(t, kind, pick(t, "less", 20, 100, 400, 1500))
			key += c.String() + " "
			vi := c.v.Interface()
			ops = append(ops, cop{"encoding " + kind, func() string {
				b, err := enc(vi)
				return fmt.Sprint(bytes.Equal(b, c.wire), errs(err))
			}, "trueok"}, cop{"decoding " + kind, func() string {
				q := reflect.New(c.v.Type())
				left, err := dec(c.wire, q.Interface())
				return fmt.Sprint(same(q.Elem(), c.v), left, errs(err))
			}, "true 0ok"}, cop{"decoding from a buffer " + kind, func() string {
				q := reflect.New(c.v.Type())
				err := chain.NewDecoder(bytes.NewBuffer(c.wire)).Decode(q.Interface())
				return fmt.Sprint(same(q.Elem(), c.v), errs(err))
			}, "trueok"})
			if c.abi != nil {
				ops = append(ops, cop{"encoding through the ABI " + kind, func() string {
					b, err := abiEnc(c.abi, c.name, c.in)
					return fmt.Sprint(bytes.Equal(b, c.wire), errs(err))
				}, "trueok"}, cop{"decoding through the ABI " + kind, func() string {
					v, left, err := abiDec(c.abi, c.name, c.wire)
					return fmt.Sprint(sameI(v, c.in), left, errs(err))
				}, "true 0ok"})
			}
		}
		run(t, "large values", key, ops)
	})
	check(t, "mixed", 300, func(t *rapid.T) {
		ops, key := opsOnABI(t)
		ops = append(ops, opsOnBytes(t)...)
		cv := gSmallCV(t, allCV, 1500)
		ops = append(ops, opsOn(t, cv)...)
		run(t, "mixed", key+cv.Name+hexs(cv.Wire), ops)
	})
}
