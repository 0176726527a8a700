// Package simio stands in for io.Pipe in instrumented code: the same behaviour, on the simulator's channels and locks.
package simio

import (
	"io"

	"verif.local/sim/simrt"
	sync "verif.local/sim/simsync"
)

type onceError struct {
	sync.Mutex
	err error
}

func (a *onceError) store(err error) {
	a.Lock()
	defer a.Unlock()
	if a.err == nil {
		a.err = err
	}
}

func (a *onceError) load() error {
	a.Lock()
	defer a.Unlock()
	return a.err
}

type pipe struct {
	wrMu sync.Mutex
	wrCh chan []byte
	rdCh chan int
	once sync.Once
	done chan struct{}
	rerr onceError
	werr onceError
}

func (p *pipe) closed() bool { return simrt.Select(true, simrt.R(p.done)) == 0 }

func (p *pipe) read(b []byte) (int, error) {
	if p.closed() {
		return 0, p.readErr()
	}
	w := simrt.R(p.wrCh)
	if simrt.Select(false, w, simrt.R(p.done)) == 1 {
		return 0, p.readErr()
	}
	n := copy(b, w.V)
	simrt.SendTo(p.rdCh)(n)
	return n, nil
}

func (p *pipe) write(b []byte) (n int, err error) {
	if p.closed() {
		return 0, p.writeErr()
	}
	p.wrMu.Lock()
	defer p.wrMu.Unlock()
	for once := true; once || len(b) > 0; once = false {
		if simrt.Select(false, simrt.S(p.wrCh)(b), simrt.R(p.done)) == 1 {
			return n, p.writeErr()
		}
		nw := simrt.Recv(p.rdCh)
		b = b[nw:]
		n += nw
	}
	return n, nil
}

func (p *pipe) end() { p.once.Do(func() { simrt.Close(p.done) }) }

func (p *pipe) readErr() error {
	rerr := p.rerr.load()
	if werr := p.werr.load(); rerr == nil && werr != nil {
		return werr
	}
	return io.ErrClosedPipe
}

func (p *pipe) writeErr() error {
	werr := p.werr.load()
	if rerr := p.rerr.load(); werr == nil && rerr != nil {
		return rerr
	}
	return io.ErrClosedPipe
}

// PipeReader is the read half of a pipe
type PipeReader struct{ pipe }

// Read reads from the pipe
func (r *PipeReader) Read(b []byte) (int, error) { return r.pipe.read(b) }

// Close closes the reader
func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

// CloseWithError closes the reader; writes fail with err
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	r.rerr.store(err)
	r.end()
	return nil
}

// PipeWriter is the write half of a pipe
type PipeWriter struct{ r PipeReader }

// Write writes to the pipe
func (w *PipeWriter) Write(b []byte) (int, error) { return w.r.pipe.write(b) }

// Close closes the writer
func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

// CloseWithError closes the writer; reads fail with err
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	w.r.werr.store(err)
	w.r.end()
	return nil
}

// Pipe makes a synchronous in-memory pipe
func Pipe() (*PipeReader, *PipeWriter) {
	pw := &PipeWriter{r: PipeReader{pipe: pipe{
		wrCh: make(chan []byte),
		rdCh: make(chan int),
		done: make(chan struct{}),
	}}}
	return &pw.r, pw
}
