P = [
dict(id="c31-flag-given-back-early", property="C31", pkg="hsms",
 needs="an instance disabled and enabled again while its connection manager sleeps between two attempts", breaks="two connection managers run for one instance",
 edits=[("hsms/protocol.go", """	p.stopLinktestTimer()
	p.stopT7Timer()
	p.connected.Store(false)

	if p.active {
""", """	p.stopLinktestTimer()
	p.stopT7Timer()
	p.connected.Store(false)
	p.connectThreadRunning.Store(false)

	if p.active {
""")],
 test='''
package hsms

import (
	"net"
	"runtime"
	"strings"
	"testing"
	"time"
)

func TestDemoOneManager(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	port := ln.Addr().(*net.TCPAddr).Port
	ln.Close()
	p := NewHsmsProtocol("127.0.0.1", port, true, 5, "host")
	p.timeouts.SetReconnectBackoffBase(3)
	p.timeouts.SetReconnectBackoffMax(3)
	p.timeouts.SetAutoReconnect(true)
	p.Enable()
	time.Sleep(500 * time.Millisecond)
	p.Disable()
	p.Enable()
	time.Sleep(500 * time.Millisecond)
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	managers := 0
	for _, g := range strings.Split(string(buf[:n]), "\\n\\n") {
		if strings.Contains(g, "startConnectThread(") && !strings.Contains(g, "TestDemoOneManager(0x") {
			managers++
		}
	}
	p.Disable()
	if managers > 1 {
		t.Fatalf("%d connection managers", managers)
	}
}
'''),
dict(id="c31-delay-not-capped", property="C31", pkg="hsms",
 needs="a first back-off delay configured above the maximum, or several failed attempts in a row, at the right attempt number", breaks="the first retry waits longer than the configured maximum",
 edits=[("hsms/reconnection.go", """	// Cap at maximum
	if delay > float64(max) {
		delay = float64(max)
	}
""", """	// Cap at maximum
	if delay > float64(max) && p.reconnectAttempts > 1 {
		delay = float64(max)
	}
""")],
 test='''
package hsms

import (
	"testing"
	"time"
)

func TestDemoDelay(t *testing.T) {
	p := NewHsmsProtocol("127.0.0.1", 1, true, 5, "host")
	p.timeouts.SetReconnectBackoffBase(30)
	p.timeouts.SetReconnectBackoffMax(5)
	max := time.Duration(p.timeouts.ReconnectBackoffMax()) * time.Second
	for n := 1; n < 80; n++ {
		p.reconnectAttempts = n
		if d := p.calculateBackoffDelay(); d > max {
			t.Fatalf("attempt %d waits %v, maximum %v", n, d, max)
		}
	}
}
'''),
dict(id="c31-success-keeps-count", property="C31", pkg="hsms", peer=True,
 needs="connections that fail, succeed and fail again until the failures together exceed the maximum", breaks="a successful connection no longer resets the count of failed attempts, so auto-reconnect gives up although the maximum was never exceeded",
 edits=[("hsms/protocol.go", """			// Connection successful, reset reconnect counter
			p.reconnectAttempts = 0

			if !p.enabled.Load() {
				return
			}
""", """			if !p.enabled.Load() {
				// Connection finished, reset reconnect counter
				p.reconnectAttempts = 0
				return
			}
""")],
 test='''
package hsms

import (
	"net"
	"testing"
	"time"
)

func TestDemoCount(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer ln.Close()
	port := ln.Addr().(*net.TCPAddr).Port
	p := NewHsmsProtocol("127.0.0.1", port, true, 5, "host")
	p.reconnectAttempts = 2
	p.timeouts.SetT5ConnSeparateTimeout(1)
	p.Enable()
	conn, err := ln.Accept()
	if err != nil {
		t.Fatal(err)
	}
	conn.Close()
	// the manager sleeps T5 (1 s) before the next attempt
	time.Sleep(600 * time.Millisecond)
	got := p.reconnectAttempts
	ln.Close()
	p.Disable()
	if got != 0 {
		t.Fatalf("%d failed attempts counted after a successful connection", got)
	}
}
'''),
]
