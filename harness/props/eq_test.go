package props

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/greymass/go-eosio/pkg/abi"
	"github.com/greymass/go-eosio/pkg/chain"
	"pgregory.net/rapid"
)

// same reports whether two values are equal: nil and empty slices or maps are
// the same, floats compare by their bits, pointers by what they point to.
func same(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		if a.Kind() == reflect.Slice && a.Type().Elem().Kind() == reflect.Uint8 {
			return bytes.Equal(a.Bytes(), b.Bytes())
		}
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if !b.MapIndex(k).IsValid() || !same(a.MapIndex(k), b.MapIndex(k)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Float32:
		// through the interface, conversion to float64 would quieten a NaN
		if a.CanInterface() && a.Type() == reflect.TypeOf(float32(0)) {
			return math.Float32bits(a.Interface().(float32)) == math.Float32bits(b.Interface().(float32))
		}
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() == b.Uint()
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func sameI(a, b interface{}) bool {
	return same(reflect.ValueOf(a), reflect.ValueOf(b))
}

// show renders a value for messages and case keys.
func show(v interface{}) string { return clip(showV(reflect.ValueOf(v), 0), 2000) }

func showV(v reflect.Value, depth int) string {
	if !v.IsValid() {
		return "nil"
	}
	if depth > 40 {
		return "..."
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + showV(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return showV(v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			for i := range b {
				b[i] = byte(v.Index(i).Uint())
			}
			return v.Type().String() + "(" + hexs(b) + ")"
		}
		s := v.Type().String() + "["
		for i := 0; i < v.Len(); i++ {
			if i > 40 {
				s += fmt.Sprintf(" ...%d", v.Len())
				break
			}
			if i > 0 {
				s += " "
			}
			s += showV(v.Index(i), depth+1)
		}
		return s + "]"
	case reflect.Map:
		s := "map["
		var parts []string
		for _, k := range v.MapKeys() {
			parts = append(parts, showV(k, depth+1)+":"+showV(v.MapIndex(k), depth+1))
		}
		sortStrings(parts)
		for i, p := range parts {
			if i > 40 {
				break
			}
			s += " " + p
		}
		return s + "]"
	case reflect.Struct:
		s := v.Type().Name() + "{"
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				s += " "
			}
			s += v.Type().Field(i).Name + ":" + showV(v.Field(i), depth+1)
		}
		return s + "}"
	case reflect.String:
		return fmt.Sprintf("%s(%q)", v.Type(), clip(v.String(), 200))
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Float32, reflect.Float64:
		return fmt.Sprintf("%s(%x)", v.Type(), math.Float64bits(v.Float()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%s(%d)", v.Type(), v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("%s(%d)", v.Type(), v.Uint())
	}
	return v.Type().String()
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

// ---- encode and decode helpers --------------------------------------------

func enc(v interface{}) ([]byte, error) {
	var b bytes.Buffer
	err := chain.NewEncoder(&b).Encode(v)
	return b.Bytes(), err
}

// dec decodes b into ptr and reports how many bytes were left.
func dec(b []byte, ptr interface{}) (left int, err error) {
	r := bytes.NewReader(b)
	err = chain.NewDecoder(r).Decode(ptr)
	return r.Len(), err
}

func plainEnc(v interface{}) ([]byte, error) {
	var b bytes.Buffer
	err := abi.NewEncoder(&b, func(*abi.Encoder, interface{}) (bool, error) { return false, nil }).Encode(v)
	return b.Bytes(), err
}

func plainDec(b []byte, ptr interface{}) (left int, err error) {
	r := bytes.NewReader(b)
	err = abi.NewDecoder(r, func(*abi.Decoder, interface{}) (bool, error) { return false, nil }).Decode(ptr)
	return r.Len(), err
}

// newPtr returns a pointer to a new zero value of v's type.
func newPtr(v interface{}) reflect.Value { return reflect.New(reflect.TypeOf(v)) }

// ptrTo returns a pointer to a copy of v.
func ptrTo(v interface{}) interface{} {
	p := reflect.New(reflect.TypeOf(v))
	p.Elem().Set(reflect.ValueOf(v))
	return p.Interface()
}

// ---- readers and writers --------------------------------------------------

// chunkReader hands out data in pieces of the given sizes (cycled). Size 0
// gives an empty read; eofWithData returns io.EOF together with the last piece.
type chunkReader struct {
	data        []byte
	sizes       []int
	i           int
	zeros       int
	eofWithData bool
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if len(r.sizes) > 0 {
		n = r.sizes[r.i%len(r.sizes)]
		r.i++
	}
	if n == 0 {
		r.zeros++
		if r.zeros < 3 {
			return 0, nil
		}
		r.zeros = 0
		n = 1
	}
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], r.data)
	r.data = r.data[n:]
	if len(r.data) == 0 && r.eofWithData {
		return n, io.EOF
	}
	return n, nil
}

var errFault = errors.New("injected fault")

// tempErr says of itself that it will pass.
type tempErr struct{}

func (tempErr) Error() string   { return "temporary fault" }
func (tempErr) Temporary() bool { return true }
func (tempErr) Timeout() bool   { return true }

// gFault is the error a stream fails with: one of its own or a well-known one.
func gFault(t *rapid.T) error {
	return pick(t, "fault", errFault, errFault, errFault, error(tempErr{}), io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer, io.ErrShortWrite,
		os.ErrDeadlineExceeded, os.ErrClosed, error(syscall.EAGAIN), error(syscall.EINTR), error(syscall.EPIPE), bytes.ErrTooLarge, bufio.ErrBufferFull)
}

// faultWriter fails the k-th write call, once or for good.
type faultWriter struct {
	buf    bytes.Buffer
	failAt int // index of the Write call to fail
	calls  int
	once   bool
	part   bool // write half of the data of the failing call
	full   bool // write all the data of the failing call
	failed int
	err    error
}

func (w *faultWriter) Write(p []byte) (int, error) {
	k := w.calls
	w.calls++
	if k == w.failAt || (k > w.failAt && !w.once) {
		w.failed++
		n := 0
		if w.part {
			n = len(p) / 2
		}
		if w.full {
			n = len(p)
		}
		w.buf.Write(p[:n])
		if w.err != nil {
			return n, w.err
		}
		return n, errFault
	}
	return w.buf.Write(p)
}

// wideWriter also offers the other ways of writing.
type wideWriter struct{ *faultWriter }

func (w wideWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w wideWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}
func (w wideWriter) ReadFrom(r io.Reader) (n int64, err error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	m, err := w.Write(b)
	return int64(m), err
}

// faultReader fails after failAt bytes were handed out, once or for good.
type faultReader struct {
	data   []byte
	pos    int
	failAt int
	once   bool
	with   bool // the error comes together with the data before it
	failed int
	err    error
}

func (r *faultReader) Read(p []byte) (int, error) {
	fault := r.err
	if fault == nil {
		fault = errFault
	}
	if r.pos >= r.failAt && (!r.once || r.failed == 0) {
		r.failed++
		return 0, fault
	}
	if len(p) == 0 {
		return 0, nil
	}
	if r.pos >= len(r.data) {
		return 0, io.EOF
	}
	end := len(r.data)
	if r.pos < r.failAt && r.failAt < end {
		end = r.failAt
	}
	n := copy(p, r.data[r.pos:end])
	r.pos += n
	if r.with && !r.once && r.pos == r.failAt {
		r.failed++
		return n, fault
	}
	return n, nil
}

// wideReader also offers the other ways of reading.
type wideReader struct{ *faultReader }

func (r wideReader) ReadByte() (byte, error) {
	var b [1]byte
	for i := 0; i < 100; i++ {
		if n, err := r.Read(b[:]); n > 0 {
			return b[0], nil
		} else if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}

// exactV is a complete rendering: equal only for values that are the same
// (nil and empty slices and maps apart).
func exactV(b *strings.Builder, v reflect.Value, depth int) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if depth > 20000 {
		b.WriteString("...")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Kind() == reflect.Interface {
			b.WriteString(v.Elem().Type().String())
		}
		b.WriteByte('&')
		exactV(b, v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(b, "%d[", v.Len())
		for i := 0; i < v.Len(); i++ {
			exactV(b, v.Index(i), depth+1)
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Map:
		var parts []string
		for _, k := range v.MapKeys() {
			var p strings.Builder
			exactV(&p, k, depth+1)
			p.WriteByte(':')
			exactV(&p, v.MapIndex(k), depth+1)
			parts = append(parts, p.String())
		}
		sort.Strings(parts)
		fmt.Fprintf(b, "map%q", parts)
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			exactV(b, v.Field(i), depth+1)
			b.WriteByte(';')
		}
		b.WriteByte('}')
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Float32:
		if v.CanInterface() {
			fmt.Fprintf(b, "%x", math.Float32bits(v.Convert(reflect.TypeOf(float32(0))).Interface().(float32)))
		} else {
			fmt.Fprintf(b, "%x", math.Float64bits(v.Float()))
		}
	case reflect.Float64:
		fmt.Fprintf(b, "%x", math.Float64bits(v.Float()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b.WriteString(strconv.FormatInt(v.Int(), 36))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		b.WriteString(strconv.FormatUint(v.Uint(), 36))
	default:
		b.WriteString(v.Type().String())
	}
}

// exact is exactV of a value, cut down to a hash when long.
func exact(v interface{}) string {
	var b strings.Builder
	exactV(&b, reflect.ValueOf(v), 0)
	if b.Len() > 4000 {
		return fmt.Sprintf("%x of %s", sha256.Sum256([]byte(b.String())), b.String()[:1000])
	}
	return b.String()
}
