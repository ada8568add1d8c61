// Package ref is an independent reference model of the EOSIO binary and text
// formats. It shares no code with the library under test.
package ref

import "math"

// Wire builds EOSIO binary data.
type Wire struct{ B []byte }

func (w *Wire) U8(v uint8)   { w.B = append(w.B, v) }
func (w *Wire) U16(v uint16) { w.le(uint64(v), 2) }
func (w *Wire) U32(v uint32) { w.le(uint64(v), 4) }
func (w *Wire) U64(v uint64) { w.le(v, 8) }
func (w *Wire) I8(v int8)    { w.le(uint64(v), 1) }
func (w *Wire) I16(v int16)  { w.le(uint64(v), 2) }
func (w *Wire) I32(v int32)  { w.le(uint64(v), 4) }
func (w *Wire) I64(v int64)  { w.le(uint64(v), 8) }
func (w *Wire) F32(v float32) {
	w.U32(math.Float32bits(v))
}
func (w *Wire) F64(v float64) {
	w.U64(math.Float64bits(v))
}
func (w *Wire) Bool(v bool) {
	if v {
		w.U8(1)
	} else {
		w.U8(0)
	}
}
func (w *Wire) Raw(b []byte) { w.B = append(w.B, b...) }

func (w *Wire) le(v uint64, n int) {
	for i := 0; i < n; i++ {
		w.B = append(w.B, byte(v%256))
		v /= 256
	}
}

// Varuint32: groups of seven bits, least significant first, high bit set on all but the last.
func (w *Wire) Varuint(v uint32) {
	for v >= 128 {
		w.B = append(w.B, byte(v%128)+128)
		v /= 128
	}
	w.B = append(w.B, byte(v))
}

// Varint32: zig-zag, 0 -1 1 -2 2 ... map to 0 1 2 3 4 ...
func (w *Wire) Varint(v int32) {
	if v >= 0 {
		w.Varuint(uint32(v) * 2)
	} else {
		w.Varuint(uint32(-(int64(v)+1))*2 + 1)
	}
}

func (w *Wire) Bytes(b []byte) {
	w.Varuint(uint32(len(b)))
	w.Raw(b)
}

func (w *Wire) Str(s string) { w.Bytes([]byte(s)) }

// Cat concatenates.
func Cat(parts ...[]byte) []byte {
	rv := []byte{}
	for _, p := range parts {
		rv = append(rv, p...)
	}
	return rv
}

// W runs f on a fresh Wire and returns the bytes.
func W(f func(w *Wire)) []byte {
	w := &Wire{B: []byte{}}
	f(w)
	return w.B
}
