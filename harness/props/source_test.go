package props

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"strings"
	"testing/iotest"
	"unsafe"

	"pgregory.net/rapid"
)

// source is a reader that knows how much of the data is left.
type source struct {
	io.Reader
	left func() int
}

// lenReader tells how much it could deliver at once, which is not all there is.
type lenReader struct{ *chunkReader }

func (r lenReader) Len() int {
	if len(r.sizes) == 0 {
		return len(r.data)
	}
	return min(len(r.data), r.sizes[r.i%len(r.sizes)])
}

func (r lenReader) Size() int64 { return int64(r.Len()) }

func (r lenReader) ReadByte() (byte, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	b := r.data[0]
	r.data = r.data[1:]
	return b, nil
}

// gSource draws a reader over the data: the readers of the standard library,
// some with more methods than Read, and ones that deliver it in odd pieces.
func gSource(t *rapid.T, data []byte) (source, string) {
	c, how := gChunks(t, data)
	left := func() int { return len(c.data) }
	kind := rapid.IntRange(0, 15).Draw(t, "reader")
	switch kind {
	case 0:
		r := bytes.NewReader(data)
		return source{r, r.Len}, "bytes.Reader"
	case 1:
		r := bytes.NewBuffer(data)
		return source{r, r.Len}, "bytes.Buffer"
	case 2:
		r := strings.NewReader(string(data))
		return source{r, r.Len}, "strings.Reader"
	case 3:
		r := bufio.NewReaderSize(c, pick(t, "bufio", 16, 17, 64, 4096))
		return source{r, func() int { return r.Buffered() + len(c.data) }}, "bufio.Reader of " + how
	case 4:
		return source{io.LimitReader(c, int64(len(data))), left}, "limited, " + how
	case 5:
		k := rapid.IntRange(0, len(data)).Draw(t, "split")
		a, b := bytes.NewReader(data[:k]), strings.NewReader(string(data[k:]))
		return source{io.MultiReader(a, bytes.NewReader(nil), b), func() int { return a.Len() + b.Len() }}, fmt.Sprint("two readers split at ", k)
	case 6:
		return source{iotest.OneByteReader(c), left}, "one byte of " + how
	case 7:
		return source{iotest.HalfReader(c), left}, "half of " + how
	case 8:
		r := io.NewSectionReader(bytes.NewReader(data), 0, int64(len(data)))
		return source{r, func() int {
			at, _ := r.Seek(0, io.SeekCurrent)
			return len(data) - int(at)
		}}, "section reader"
	case 9:
		return source{lenReader{c}, left}, "with Len, " + how
	case 10:
		return source{io.TeeReader(c, io.Discard), left}, "tee of " + how
	}
	return source{c, left}, how
}

// gSink draws a writer to encode to, and a function that gives what arrived.
func gSink(t *rapid.T) (io.Writer, func() []byte) {
	switch rapid.IntRange(0, 4).Draw(t, "writer") {
	case 0:
		var b strings.Builder
		return &b, func() []byte { return unsafe.Slice(unsafe.StringData(b.String()), b.Len()) }
	case 1:
		var b bytes.Buffer
		w := bufio.NewWriterSize(&b, pick(t, "bufio", 16, 33, 4096))
		return w, func() []byte { w.Flush(); return b.Bytes() }
	case 2:
		w := &faultWriter{failAt: -1, once: true}
		return wideWriter{w}, func() []byte { return w.buf.Bytes() }
	case 3:
		w := &faultWriter{failAt: -1, once: true}
		return w, func() []byte { return w.buf.Bytes() }
	}
	var b bytes.Buffer
	return &b, b.Bytes
}
