// Package io replaces the standard package in files of the code under test
// that use its pipes: both ends wait in the simulated scheduler.
package io

import (
	std "io"

	"watersim/simrt"
)

type pipe struct {
	wrMu       simrt.Mutex
	wrCh       chan []byte
	rdCh       chan int
	once       simrt.Once
	done       chan struct{}
	rerr, werr error
}

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{wrCh: make(chan []byte), rdCh: make(chan int), done: make(chan struct{})}
	return &PipeReader{p}, &PipeWriter{p}
}

func (p *pipe) ended() bool {
	return simrt.Select(true, simrt.CaseRecv((<-chan struct{})(p.done))) == 0
}

func (p *pipe) readErr() error {
	if p.werr != nil && p.rerr == nil {
		return p.werr
	}
	return std.ErrClosedPipe
}

func (p *pipe) writeErr() error {
	if p.werr == nil && p.rerr != nil {
		return p.rerr
	}
	return std.ErrClosedPipe
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	if p.ended() {
		return 0, p.readErr()
	}
	data := simrt.CaseRecv((<-chan []byte)(p.wrCh))
	if simrt.Select(false, data, simrt.CaseRecv((<-chan struct{})(p.done))) == 0 {
		n := copy(b, data.V)
		simrt.CaseSend((chan<- int)(p.rdCh)).Set(n).Do()
		return n, nil
	}
	return 0, p.readErr()
}

func (w *PipeWriter) Write(b []byte) (n int, err error) {
	p := w.p
	if p.ended() {
		return 0, p.writeErr()
	}
	p.wrMu.Lock()
	defer p.wrMu.Unlock()
	for once := true; once || len(b) > 0; once = false {
		if simrt.Select(false, simrt.CaseSend((chan<- []byte)(p.wrCh)).Set(b), simrt.CaseRecv((<-chan struct{})(p.done))) == 0 {
			m := simrt.Recv((<-chan int)(p.rdCh))
			b = b[m:]
			n += m
		} else {
			return n, p.writeErr()
		}
	}
	return n, nil
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }

func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = std.ErrClosedPipe
	}
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	r.p.once.Do(func() { close(r.p.done) })
	return nil
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }

func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = std.EOF
	}
	if w.p.werr == nil {
		w.p.werr = err
	}
	w.p.once.Do(func() { close(w.p.done) })
	return nil
}
