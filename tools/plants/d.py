SES='''
package link

import (
	"bytes"
	"errors"
	"io"
	"net"
	"testing"
	"time"
)

var _ = bytes.NewBuffer
var _ = io.EOF

type demoConn struct {
	net.Conn
	closed chan struct{}
}

func (c *demoConn) Close() error { close(c.closed); return c.Conn.Close() }

type demoListener struct {
	net.Listener
	conns chan *demoConn
}

func (l *demoListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	d := &demoConn{c, make(chan struct{})}
	l.conns <- d
	return d, nil
}
'''
WAIT="""
package hsms

import (
	"testing"
	"time"

	link "github.com/younglifestyle/secs4go"
)

type mute struct{}

func (mute) Receive() (interface{}, error) { select {} }
func (mute) Send(interface{}) error        { return nil }
func (mute) Close() error                  { return nil }
"""
P = [
dict(id="c28-singleserve-leak", property="C28", pkg=".",
 needs="a single-connection server whose protocol refuses the accepted connection", breaks="the accepted connection is neither owned by a session nor closed when the codec cannot be created",
 edits=[("server.go", """	codec, err := server.protocol.NewCodec(conn)
	if err != nil {
		conn.Close()
		return err
	}
	session := server.manager""", """	codec, err := server.protocol.NewCodec(conn)
	if err != nil {
		return err
	}
	session := server.manager""")],
 test=SES+'''
func TestDemoLeak(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	dl := &demoListener{ln, make(chan *demoConn, 1)}
	s := NewServer(dl, ProtocolFunc(func(io.ReadWriter) (Codec, error) { return nil, errors.New("refused") }), 0, HandlerFunc(func(*Session) {}))
	go func() {
		c, err := net.Dial("tcp", ln.Addr().String())
		if err == nil {
			defer c.Close()
			time.Sleep(3 * time.Second)
		}
	}()
	if s.SingleServe() == nil {
		t.Fatal("no error")
	}
	select {
	case <-(<-dl.conns).closed:
	case <-time.After(time.Second):
		t.Fatal("connection left open")
	}
}
'''),
dict(id="c28-receive-close-eof-only", property="C28", pkg=".",
 needs="a receive error other than the end of the stream", breaks="a session whose codec fails with anything but io.EOF is not closed",
 edits=[("session.go", """	msg, err := session.codec.Receive()
	if err != nil {
		session.Close()
	}
	return msg, err""", """	msg, err := session.codec.Receive()
	if errors.Is(err, io.EOF) {
		session.Close()
	}
	return msg, err"""), ("session.go", """import (
	"errors"
""", """import (
	"errors"
	"io"
""")],
 test='''
package link

import (
	"errors"
	"io"
	"testing"
)

var _ = io.EOF

type badCodec struct{}

func (badCodec) Receive() (interface{}, error) { return nil, errors.New("connection reset") }
func (badCodec) Send(interface{}) error        { return nil }
func (badCodec) Close() error                  { return nil }

func TestDemoReceiveCloses(t *testing.T) {
	s := NewSession(badCodec{}, 0)
	if _, err := s.Receive(); err == nil {
		t.Fatal("no error")
	}
	if !s.IsClosed() {
		t.Fatal("session still open after a failed receive")
	}
}
'''),
dict(id="c29-t3-for-select", property="C29", pkg="hsms",
 needs="a peer that does not answer select.req, with T3 different from T6", breaks="the wait for select.rsp uses the data reply time-out T3 instead of T6",
 edits=[("hsms/connection.go", """	resp, err := queue.Get(c.hp.timeouts.T6ControlTransTimeout())
	if err != nil {
		c.hp.logger.Warn("timeout waiting select.rsp", "error", err)""", """	resp, err := queue.Get(c.hp.timeouts.T3ReplyTimeout())
	if err != nil {
		c.hp.logger.Warn("timeout waiting select.rsp", "error", err)""")],
 test=WAIT+"""
func TestDemoSelectWait(t *testing.T) {
	p := NewHsmsProtocol("127.0.0.1", 1, true, 5, "host")
	p.Timeouts().SetT3ReplyTimeout(12)
	p.Timeouts().SetT6ControlTransTimeout(1)
	p.hsmsConnection.SetSession(link.NewSession(mute{}, 0))
	start := time.Now()
	if p.hsmsConnection.sendSelectReq() == nil {
		t.Fatal("no error")
	}
	if d := time.Since(start); d > 5*time.Second {
		t.Fatal("waited", d)
	}
}
"""),
dict(id="c29-t3-getter-floor", property="C29", pkg="hsms",
 needs="a configured T3 below the default", breaks="the T3 accessor returns at least the default, so a shorter configured reply time-out is not obeyed",
 edits=[("hsms/SecsTimeout.go", """func (s *SecsTimeout) T3ReplyTimeout() int {
	return s.t3ReplyTimeout
}""", """func (s *SecsTimeout) T3ReplyTimeout() int {
	if s.t3ReplyTimeout < s.t6ControlTransTimeout {
		return s.t6ControlTransTimeout
	}
	return s.t3ReplyTimeout
}""")],
 test="""
package hsms

import "testing"

func TestDemoT3(t *testing.T) {
	s := NewSecsTimeout()
	s.SetT6ControlTransTimeout(20)
	s.SetT3ReplyTimeout(2)
	if s.T3ReplyTimeout() != 2 {
		t.Fatal("T3", s.T3ReplyTimeout())
	}
}
"""),
]
