//go:build extended

package wsim

import (
	"bufio"
	"net"
)

const Extended = true

type advanced interface {
	Flush()
	Hijack() (net.Conn, *bufio.ReadWriter, error)
}

func execAdvanced(rec *Rec, c Ctx, op *Op) {
	a := c.(advanced)
	if op.Op == "flush" {
		a.Flush()
		return
	}
	conn, _, err := a.Hijack()
	rec.ev("R", "hijack err=%s", nilOrErr(err))
	if err == nil {
		rec.fire("conn.hijacked")
		conn.Write(op.B)
		conn.Close()
	}
}

func (c *mctx) Flush() {
	if !c.written {
		c.WriteHeader(200)
	}
	c.rw.Flush()
}

func (c *mctx) CloseNotify() <-chan bool { return c.rw.CloseNotify() }

func (c *mctx) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	conn, b, err := c.rw.Hijack()
	if err == nil {
		c.written = true
	}
	return conn, b, err
}
