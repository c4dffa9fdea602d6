GEM = '''package gem

import (
	"testing"
	"time"

	"github.com/younglifestyle/secs4go/hsms"
)

func demoHandler(t *testing.T, wait time.Duration) *GemHandler {
	t.Helper()
	p := hsms.NewHsmsProtocol("127.0.0.1", 1, false, 1, "demo")
	g, err := NewGemHandler(Options{Protocol: p, DeviceType: DeviceEquipment, EstablishCommunicationWait: wait})
	if err != nil {
		t.Fatal(err)
	}
	return g
}
'''
P = [
dict(id="C63-wait-at-least-a-second", property="C63", pkg="gem",
  needs="a wait shorter than one second",
  breaks="WaitForCommunicating waits a whole second although its argument says less",
  edits=[("gem/handler.go", """	timer := time.NewTimer(timeout)
	defer timer.Stop()
""", """	// Establishing communication takes a round trip at least.
	if timeout < time.Second {
		timeout = time.Second
	}
	timer := time.NewTimer(timeout)
	defer timer.Stop()
""")],
  test=GEM + '''
func TestDemoShortWait(t *testing.T) {
	g := demoHandler(t, time.Second)
	start := time.Now()
	if g.WaitForCommunicating(100 * time.Millisecond) {
		t.Fatal("communicating")
	}
	if d := time.Since(start); d > 700*time.Millisecond {
		t.Fatal(d)
	}
}
'''),
dict(id="C63-retry-not-below-t5", property="C63", pkg="gem",
  needs="an establish-communication wait shorter than T5, and an attempt that failed",
  breaks="WAIT DELAY lasts for T5 instead of the configured wait",
  edits=[("gem/handler.go", """	g.state.setStateWithWaitDelay(CommunicationStateWaitDelay, g.establishWait, g.onWaitDelayTimeout)
""", """	wait := g.establishWait
	if t5 := time.Duration(g.protocol.Timeouts().T5ConnSeparateTimeout()) * time.Second; wait < t5 {
		wait = t5
	}
	g.state.setStateWithWaitDelay(CommunicationStateWaitDelay, wait, g.onWaitDelayTimeout)
""")],
  test=GEM + '''
func TestDemoShortDelay(t *testing.T) {
	g := demoHandler(t, 200*time.Millisecond)
	g.enabled.Store(true)
	g.scheduleRetry()
	if g.State() != CommunicationStateWaitDelay {
		t.Fatal(g.State())
	}
	for i := 0; i < 150; i++ {
		if g.State() != CommunicationStateWaitDelay {
			g.enabled.Store(false)
			return
		}
		time.Sleep(10 * time.Millisecond)
	}
	t.Fatal("still in WAIT DELAY")
}
'''),
dict(id="C63-deadline-once", property="C63", pkg="hsms",
  needs="more traffic than one message, spread over longer than T8",
  breaks="the read deadline is renewed only if T8 has run out since it was set: most messages have less than T8, some almost none",
  edits=[("hsms/protocol.go", """	p.OnConnectionEstablished()

	for p.enabled.Load() {
		if deadlineCodec != nil {
			if err := deadlineCodec.SetReadDeadline(time.Now().Add(t8Duration)); err != nil {
				p.logger.Error("set read deadline failed", "error", err)
			}
		}

		rsp, err := connection.Receive()

		if deadlineCodec != nil {
			if clrErr""", """	p.OnConnectionEstablished()

	var armed time.Time
	for p.enabled.Load() {
		if deadlineCodec != nil && time.Now().After(armed.Add(t8Duration/2)) {
			armed = time.Now()
			if err := deadlineCodec.SetReadDeadline(armed.Add(t8Duration)); err != nil {
				p.logger.Error("set read deadline failed", "error", err)
			}
		}

		rsp, err := connection.Receive()

		if deadlineCodec != nil && time.Now().After(armed.Add(t8Duration/2)) {
			if clrErr""")],
  test='''package hsms

import (
	"errors"
	"sync"
	"testing"
	"time"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

type demoCodec struct {
	mu   sync.Mutex
	log  []string
	n    int
	done chan struct{}
}

func (d *demoCodec) SetReadDeadline(t time.Time) error {
	d.mu.Lock()
	defer d.mu.Unlock()
	if t.IsZero() {
		d.log = append(d.log, "clear")
	} else {
		d.log = append(d.log, "set")
	}
	return nil
}

func (d *demoCodec) Receive() (interface{}, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.log = append(d.log, "receive")
	d.n++
	if d.n > 4 {
		return nil, errors.New("end")
	}
	return ast.NewHSMSMessageLinktestReq([]byte{0, 0, 0, byte(d.n)}), nil
}

func (d *demoCodec) Send(interface{}) error { return nil }
func (d *demoCodec) SetWriteDeadline(time.Time) error { return nil }
func (d *demoCodec) Close() error                     { return nil }

func TestDemoEveryReceive(t *testing.T) {
	var _ link.DeadlineCodec = &demoCodec{}
	p := NewHsmsProtocol("127.0.0.1", 1, false, 1, "demo")
	p.timeouts.SetT8NetworkIntercharTimeout(60)
	p.enabled.Store(true)
	c := &demoCodec{}
	s := link.NewSession(c, 16)
	go func() {
		time.Sleep(2 * time.Second)
		p.enabled.Store(false)
		s.Close()
	}()
	p.OnConnectionEstablishedAndStartReceiver(s)
	last := ""
	for _, e := range c.log {
		if e == "receive" && last != "set" {
			t.Fatal(c.log)
		}
		last = e
	}
	if c.n < 2 {
		t.Fatal(c.log)
	}
}
'''),
dict(id="C63-pause-is-t6", property="C63", pkg="hsms", peer=True,
  needs="T6 shorter than T5, and a connection that was established and lost",
  breaks="the active side connects again after T6 instead of waiting for T5",
  edits=[("hsms/protocol.go", """			time.Sleep(time.Duration(p.timeouts.T5ConnSeparateTimeout()) * time.Second)
			continue
""", """			pause := p.timeouts.T5ConnSeparateTimeout()
			if t6 := p.timeouts.T6ControlTransTimeout(); t6 > 0 && t6 < pause {
				pause = t6 // the peer had time to notice
			}
			time.Sleep(time.Duration(pause) * time.Second)
			continue
""")],
  test='''package hsms

import (
	"fmt"
	"net"
	"testing"
	"time"
)

func TestDemoPause(t *testing.T) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Fatal(err)
	}
	defer l.Close()
	p := NewHsmsProtocol("127.0.0.1", l.Addr().(*net.TCPAddr).Port, true, 1, "demo")
	p.timeouts.SetT5ConnSeparateTimeout(4)
	p.timeouts.SetT6ControlTransTimeout(1)
	p.Enable()
	defer p.Disable()
	c, err := l.Accept()
	if err != nil {
		t.Fatal(err)
	}
	time.Sleep(100 * time.Millisecond)
	c.Close()
	start := time.Now()
	l.(*net.TCPListener).SetDeadline(time.Now().Add(20 * time.Second))
	c, err = l.Accept()
	if err != nil {
		t.Fatal(err)
	}
	c.Close()
	if d := time.Since(start); d < 3500*time.Millisecond {
		t.Fatal(fmt.Sprint("connected again after ", d))
	}
}
'''),
]
