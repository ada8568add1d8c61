package props

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"testing"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
	"pgregory.net/rapid"

	"verif/ref"
)

// writePrim writes v with the method for its type.
func writePrim(e *abi.Encoder, name string, v interface{}) error {
	switch name {
	case "bool":
		return e.WriteBool(v.(bool))
	case "string":
		return e.WriteString(v.(string))
	case "uint8":
		return e.WriteUint8(v.(uint8))
	case "uint16":
		return e.WriteUint16(v.(uint16))
	case "uint32":
		return e.WriteUint32(v.(uint32))
	case "uint64":
		return e.WriteUint64(v.(uint64))
	case "int8":
		return e.WriteInt8(v.(int8))
	case "int16":
		return e.WriteInt16(v.(int16))
	case "int32":
		return e.WriteInt32(v.(int32))
	case "int64":
		return e.WriteInt64(v.(int64))
	case "float32":
		return e.WriteFloat32(v.(float32))
	case "float64":
		return e.WriteFloat64(v.(float64))
	case "varint32":
		return e.WriteVarint(v.(int))
	case "varuint32":
		return e.WriteVaruint(v.(uint))
	case "[]byte":
		b := v.([]byte)
		if err := e.WriteVaruint(uint(len(b))); err != nil {
			return err
		}
		return e.WriteBytes(b)
	}
	panic(name)
}

func readPrim(d *abi.Decoder, name string) (v interface{}, err error) {
	switch name {
	case "bool":
		return d.ReadBool()
	case "string":
		return d.ReadString()
	case "uint8":
		return d.ReadUint8()
	case "uint16":
		return d.ReadUint16()
	case "uint32":
		return d.ReadUint32()
	case "uint64":
		return d.ReadUint64()
	case "int8":
		return d.ReadInt8()
	case "int16":
		return d.ReadInt16()
	case "int32":
		return d.ReadInt32()
	case "int64":
		return d.ReadInt64()
	case "float32":
		return d.ReadFloat32()
	case "float64":
		return d.ReadFloat64()
	case "varint32":
		return d.ReadVarint()
	case "varuint32":
		return d.ReadVaruint()
	case "[]byte":
		n, err := d.ReadVaruint()
		if err != nil {
			return nil, err
		}
		an, b, err := d.ReadBytes(int(n))
		if err == nil && an != int(n) {
			return nil, fmt.Errorf("ReadBytes(%d) reported %d bytes", n, an)
		}
		return b, err
	}
	panic(name)
}

func TestC01(t *testing.T) {
	largeC01(t)
	check(t, "roundtrip", 20000, func(t *rapid.T) {
		cv := gCV(t, primGens)
		tail := gFill(t, "tail", rapid.IntRange(0, 3).Draw(t, "ntail"))
		stats.Case("primitive "+cv.Name, cv.Interest, show(cv.V))

		// four ways to encode
		routes := map[string][]byte{}
		var err error
		if routes["Encode"], err = enc(cv.V); err != nil {
			t.Fatalf("Encode(%s): %v", show(cv.V), err)
		}
		if routes["Encode pointer"], err = enc(ptrTo(cv.V)); err != nil {
			t.Fatalf("Encode(&%s): %v", show(cv.V), err)
		}
		if routes["plain Encode"], err = plainEnc(cv.V); err != nil {
			t.Fatalf("plain Encode(%s): %v", show(cv.V), err)
		}
		var b bytes.Buffer
		if err = writePrim(chain.NewEncoder(&b), cv.Name, cv.V); err != nil {
			t.Fatalf("Write %s(%s): %v", cv.Name, show(cv.V), err)
		}
		routes["Write"] = b.Bytes()
		for r, got := range routes {
			if !bytes.Equal(got, cv.Wire) {
				t.Fatalf("%s of %s gave %s, the EOSIO form is %s", r, show(cv.V), hexs(got), hexs(cv.Wire))
			}
		}

		// three ways to decode, none reads past the value
		in := ref.Cat(cv.Wire, tail)
		p := newPtr(cv.V)
		left, err := dec(in, p.Interface())
		if err != nil || left != len(tail) || !sameI(p.Elem().Interface(), cv.V) {
			t.Fatalf("Decode(%s) gave %s, err %v, %d bytes left (want %s, %d)", hexs(in), show(p.Elem().Interface()), err, left, show(cv.V), len(tail))
		}
		p = newPtr(cv.V)
		left, err = plainDec(in, p.Interface())
		if err != nil || left != len(tail) || !sameI(p.Elem().Interface(), cv.V) {
			t.Fatalf("plain Decode(%s) gave %s, err %v, %d bytes left (want %s, %d)", hexs(in), show(p.Elem().Interface()), err, left, show(cv.V), len(tail))
		}
		r := bytes.NewReader(in)
		v, err := readPrim(chain.NewDecoder(r), cv.Name)
		if err != nil || r.Len() != len(tail) || !sameI(v, cv.V) {
			t.Fatalf("Read %s(%s) gave %s, err %v, %d bytes left (want %s, %d)", cv.Name, hexs(in), show(v), err, r.Len(), show(cv.V), len(tail))
		}
	})

	check(t, "varuint", 30000, func(t *rapid.T) {
		v := gVaru(t, "v")
		want := ref.W(func(w *ref.Wire) { w.Varuint(v) })
		stats.Case(fmt.Sprintf("varuint32 of %d bytes", len(want)), v != 0, fmt.Sprint(v))
		got, err := enc(uint(v))
		if err != nil || !bytes.Equal(got, want) {
			t.Fatalf("varuint32 %d encodes to %x, err %v (want %x)", v, got, err, want)
		}
		var d uint
		if left, err := dec(got, &d); err != nil || left != 0 || d != uint(v) {
			t.Fatalf("varuint32 %x decodes to %d, err %v", got, d, err)
		}
		s := int32(v)
		want = ref.W(func(w *ref.Wire) { w.Varint(s) })
		got, err = enc(int(s))
		if err != nil || !bytes.Equal(got, want) {
			t.Fatalf("varint32 %d encodes to %x, err %v (want %x)", s, got, err, want)
		}
		var i int
		if left, err := dec(got, &i); err != nil || left != 0 || i != int(s) {
			t.Fatalf("varint32 %x decodes to %d, err %v", got, i, err)
		}
	})

	check(t, "varint-range", 20000, func(t *rapid.T) {
		// encoding numbers beyond 32 bits must fail
		u := gU64(t, "u") | uint64(1)<<rapid.IntRange(32, 63).Draw(t, "bit")
		for _, f := range []func() error{
			func() error { _, err := enc(uint(u)); return err },
			func() error { return chain.NewEncoder(&bytes.Buffer{}).WriteVaruint(uint(u)) },
			func() error { _, err := enc([]uint{1, uint(u)}); return err },
		} {
			var err error
			if msg, bad := noPanic(func() { err = f() }); bad {
				t.Fatalf("encoding varuint %d panicked: %s", u, msg)
			}
			if err == nil {
				t.Fatalf("varuint %d does not fit in 32 bits but was encoded", u)
			}
		}
		s := int64(u)
		if s > math.MaxInt32 || s < math.MinInt32 {
			for _, f := range []func() error{
				func() error { _, err := enc(int(s)); return err },
				func() error { return chain.NewEncoder(&bytes.Buffer{}).WriteVarint(int(s)) },
			} {
				var err error
				if msg, bad := noPanic(func() { err = f() }); bad {
					t.Fatalf("encoding varint %d panicked: %s", s, msg)
				}
				if err == nil {
					t.Fatalf("varint %d does not fit in 32 bits but was encoded", s)
				}
			}
		}
		// decoding them must fail as well
		var b []byte
		for x := u; ; x >>= 7 {
			if x < 128 {
				b = append(b, byte(x))
				break
			}
			b = append(b, byte(x)|128)
		}
		stats.Case("varint beyond 32 bits", true, fmt.Sprintf("%x", b))
		var du uint
		var di int
		for _, p := range []interface{}{&du, &di} {
			var err error
			if msg, bad := noPanic(func() { _, err = dec(b, p) }); bad {
				t.Fatalf("decoding %x panicked: %s", b, msg)
			}
			if err == nil {
				t.Fatalf("%x is more than 32 bits but decodes to %v", b, reflect.ValueOf(p).Elem())
			}
		}
	})

	check(t, "varint-any", 20000, func(t *rapid.T) {
		// arbitrary continuation bytes: an error, or exactly the number they spell
		n := rapid.IntRange(1, 12).Draw(t, "n")
		b := make([]byte, n)
		for i := range b {
			b[i] = rapid.Byte().Draw(t, "b") | 128
			if chance(t, "zero", 4) {
				b[i] = 128
			}
		}
		b[n-1] &= 127
		var want uint64
		over := false
		for i := n - 1; i >= 0; i-- {
			if want >= 1<<57 {
				over = true
			}
			want = want<<7 | uint64(b[i]&127)
		}
		stats.Case("varint bytes", n > 1, fmt.Sprintf("%x", b))
		var du uint
		left, err := dec(b, &du)
		if err == nil && (over || uint64(du) != want || want > math.MaxUint32 || left != 0) {
			t.Fatalf("varuint32 %x decoded to %d with %d bytes left", b, du, left)
		}
		if err != nil && n <= 5 && want <= math.MaxUint32 && (n == 1 || b[n-1] != 0) {
			t.Fatalf("varuint32 %x is %d but was rejected: %v", b, want, err)
		}
		var di int
		left, err = dec(b, &di)
		zz := int64(want >> 1)
		if want&1 == 1 {
			zz = -zz - 1
		}
		if err == nil && (over || int64(di) != zz || want > math.MaxUint32 || left != 0) {
			t.Fatalf("varint32 %x decoded to %d with %d bytes left", b, di, left)
		}
		if err != nil && n <= 5 && want <= math.MaxUint32 && (n == 1 || b[n-1] != 0) {
			t.Fatalf("varint32 %x is %d but was rejected: %v", b, zz, err)
		}
	})

	check(t, "raw", 3000, func(t *rapid.T) {
		b := gBytes(t, "b", 200000)
		tail := gFill(t, "tail", 2)
		c := gU8(t, "c")
		stats.Case("raw bytes", len(b) > 0, hexs(b))
		var out bytes.Buffer
		e := chain.NewEncoder(&out)
		if err := e.WriteBytes(b); err != nil {
			t.Fatalf("WriteBytes: %v", err)
		}
		if err := e.WriteByte(c); err != nil {
			t.Fatalf("WriteByte: %v", err)
		}
		if !bytes.Equal(out.Bytes(), ref.Cat(b, []byte{c})) {
			t.Fatalf("WriteBytes(%s), WriteByte(%d) wrote %s", hexs(b), c, hexs(out.Bytes()))
		}
		r := bytes.NewReader(ref.Cat(out.Bytes(), tail))
		d := chain.NewDecoder(r)
		n, got, err := d.ReadBytes(len(b))
		if err != nil || n != len(b) || !bytes.Equal(got, b) {
			t.Fatalf("ReadBytes(%d) gave %d, %s, %v (want %s)", len(b), n, hexs(got), err, hexs(b))
		}
		gc, err := d.ReadByte()
		if err != nil || gc != c || r.Len() != 2 {
			t.Fatalf("ReadByte gave %d, %v, %d left", gc, err, r.Len())
		}
		if _, _, err := d.ReadBytes(-1 - int(c)); err == nil {
			t.Fatalf("ReadBytes with a negative count succeeded")
		}
	})
}
