package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"

	"verif.local/sim/simrt"
)

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

type eofLike struct{}

func (eofLike) Error() string { return "EOF" }

// the errors a source or sink can fail with
var ioErrs = map[string]error{
	"EIO":            syscall.EIO,
	"ECONNRESET":     &os.PathError{Op: "read", Path: "conn", Err: syscall.ECONNRESET},
	"unexpected EOF": io.ErrUnexpectedEOF,
	"wrapped EOF":    fmt.Errorf("connection lost: %w", io.EOF),
	"EOF lookalike":  eofLike{},
	"timeout":        timeoutErr{},
	"closed pipe":    io.ErrClosedPipe,
	"closed":         os.ErrClosed,
	"no progress":    io.ErrNoProgress,
	"short buffer":   io.ErrShortBuffer,
	"canceled":       context.Canceled,
	"EINTR":          syscall.EINTR,
	"custom":         errors.New("disk on fire"),
	"ENOSPC":         syscall.ENOSPC,
	"EPIPE":          syscall.EPIPE,
	"short write":    io.ErrShortWrite,
}

var readErrNames = []string{"EIO", "ECONNRESET", "unexpected EOF", "wrapped EOF", "EOF lookalike", "timeout", "closed pipe", "closed", "no progress", "short buffer", "canceled", "EINTR", "custom"}
var writeErrNames = []string{"EIO", "ENOSPC", "EPIPE", "closed pipe", "timeout", "custom", "short write", "wrapped EOF"}

// simReader delivers a document according to a plan. Each call is a yield point of the scheduler.
type simReader struct {
	doc    []byte
	pl     ReadPlan
	pos    int
	i      int
	zeros  int
	calls  int
	ended  bool // EOF or error has been reported
	sawEnd bool
	o      *Outcome
	onRead func(delivered int)
	extra  int
}

func newReader(doc []byte, pl ReadPlan, o *Outcome) *simReader {
	return &simReader{doc: doc, pl: pl, o: o}
}

func (r *simReader) err() error {
	if e, ok := ioErrs[r.pl.Err]; ok {
		return e
	}
	return errors.New(r.pl.Err)
}

func (r *simReader) fault(k string) {
	if r.o != nil {
		r.o.fault(k)
	}
}

// Read implements io.Reader
func (r *simReader) Read(p []byte) (int, error) {
	simrt.IO()
	r.calls++
	if r.onRead != nil {
		r.onRead(r.pos)
	}
	if len(p) == 0 {
		return 0, nil
	}
	limit := len(r.doc)
	failing := false
	if r.pl.Fail >= 0 && r.pl.Fail <= limit {
		limit = r.pl.Fail
		failing = true
	}
	if r.ended {
		r.sawEnd = true
		switch r.pl.After {
		case "data":
			// a source that carries on as if nothing had happened
			r.fault("data after the end")
			r.extra++
			if r.extra < 50 {
				if failing && r.pos < len(r.doc) {
					n := copy(p, r.doc[r.pos:])
					r.pos += n
					return n, nil
				}
				return copy(p, " more data "), nil
			}
			return 0, io.EOF
		case "eof":
			r.fault("EOF after the error")
			return 0, io.EOF
		case "err":
			r.fault("error after the end")
			return 0, ioErrs["custom"]
		}
		if failing {
			return 0, r.err()
		}
		return 0, io.EOF
	}
	size := -1
	if len(r.pl.Sizes) > 0 {
		size = r.pl.Sizes[r.i%len(r.pl.Sizes)]
		r.i++
	}
	rest := limit - r.pos
	if rest == 0 {
		r.ended = true
		if failing {
			r.fault("read error")
			return 0, r.err()
		}
		return 0, io.EOF
	}
	if size == 0 {
		if r.zeros < 20 {
			r.zeros++
			r.fault("empty read")
			return 0, nil
		}
		size = 1
	}
	r.zeros = 0
	n := len(p)
	if size > 0 && size < n {
		n = size
		r.fault("short read")
	}
	if n > rest {
		n = rest
	}
	copy(p, r.doc[r.pos:r.pos+n])
	r.pos += n
	if r.pl.Scribble && n < len(p) {
		r.fault("scribble")
		for i := n; i < len(p) && i < n+512; i++ {
			p[i] = "xX.'@\xff\n"[i%7]
		}
	}
	if r.pos == limit {
		if failing && r.pl.FailWith {
			r.ended = true
			r.fault("read error with data")
			return n, r.err()
		}
		if !failing && r.pl.EOFWith {
			r.ended = true
			r.fault("EOF with data")
			return n, io.EOF
		}
	}
	return n, nil
}

var wraps = []string{"bufio", "bufio16", "writerto", "bytes", "closer", "limited", "multi", "len"}

type (
	readerWriterTo struct{ *simReader }
	readerBytes    struct{ *simReader }
	readerCloser   struct{ *simReader }
	readerLen      struct{ *simReader }
)

// WriteTo implements io.WriterTo
func (r readerWriterTo) WriteTo(w io.Writer) (int64, error) {
	var n int64
	b := make([]byte, 700)
	for {
		k, err := r.Read(b)
		if k > 0 {
			m, werr := w.Write(b[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// ReadByte implements io.ByteReader
func (r readerBytes) ReadByte() (byte, error) {
	var b [1]byte
	for {
		n, err := r.Read(b[:])
		if n > 0 {
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

// Close implements io.Closer; nothing of a stream's contract says that it closes its source
func (r readerCloser) Close() error { return nil }

// Len and Size say what is left according to whoever made the reader, which need not be what is delivered
func (r readerLen) Len() int    { return len(r.doc) - r.pos }
func (r readerLen) Size() int64 { return int64(len(r.doc)) }

// wrapReader gives the reader one of the shapes that readers come in
func wrapReader(r *simReader) io.Reader {
	switch r.pl.Wrap {
	case "bufio":
		return bufio.NewReader(r)
	case "bufio16":
		return bufio.NewReaderSize(r, 16)
	case "writerto":
		return readerWriterTo{r}
	case "bytes":
		return readerBytes{r}
	case "closer":
		return readerCloser{r}
	case "limited":
		return &io.LimitedReader{R: r, N: 1 << 40}
	case "multi":
		return io.MultiReader(strings.NewReader(""), r, strings.NewReader(""))
	case "len":
		return readerLen{r}
	}
	return r
}

// richWriter can do more than Write
type richWriter struct{ *simWriter }

// WriteString implements io.StringWriter
func (w richWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

// WriteByte implements io.ByteWriter
func (w richWriter) WriteByte(b byte) error {
	_, err := w.Write([]byte{b})
	return err
}

// ReadFrom implements io.ReaderFrom
func (w richWriter) ReadFrom(r io.Reader) (int64, error) {
	var n int64
	b := make([]byte, 300)
	for {
		k, err := r.Read(b)
		if k > 0 {
			m, werr := w.Write(b[:k])
			n += int64(m)
			if werr != nil {
				return n, werr
			}
		}
		if err == io.EOF {
			return n, nil
		}
		if err != nil {
			return n, err
		}
	}
}

// simWriter accepts bytes according to a plan
type simWriter struct {
	pl       SinkPlan
	got      []byte
	failed   bool
	errAt    int
	afterErr int // bytes offered after the failure
	calls    int
	o        *Outcome
}

func (w *simWriter) err() error { return ioErrs[w.pl.Err] }

// Write implements io.Writer
func (w *simWriter) Write(p []byte) (int, error) {
	simrt.IO()
	w.calls++
	if w.failed {
		w.afterErr += len(p)
		if w.pl.Once {
			w.got = append(w.got, p...)
			return len(p), nil
		}
		return 0, w.err()
	}
	if w.pl.Fail >= 0 && len(w.got)+len(p) > w.pl.Fail {
		w.failed = true
		n := 0
		switch {
		case w.pl.All:
			n = len(p)
			w.o.fault("write error after accepting all")
		case w.pl.Partial:
			n = w.pl.Fail - len(w.got)
			w.o.fault("partial write with error")
		default:
			w.o.fault("write error")
		}
		w.got = append(w.got, p[:n]...)
		return n, w.err()
	}
	w.got = append(w.got, p...)
	return len(p), nil
}

var errEOF = io.EOF
