H = "hsms/protocol.go"
G = "gem/handler.go"
SETUP = '''
func passive(t *testing.T, session int) (*HsmsProtocol, *rawPeer) {
	port := freePort(t)
	p := NewHsmsProtocol("127.0.0.1", port, false, session, "eq")
	p.Timeouts().SetLinktest(60)
	p.Enable()
	t.Cleanup(p.Disable)
	peer := dialPeer(t, port)
	t.Cleanup(func() { peer.c.Close() })
	return p, peer
}
'''
P = [
dict(id="c06-leak-on-timeout", property="C06", pkg="hsms", peer=True,
 needs="a data transaction whose T3 expires", breaks="the entry of a transaction that waits out T3 stays in the table of open transactions",
 edits=[(H, """	queue := p.createQueue(systemID)
	defer p.removeQueue(systemID)

	outgoing := message.SetSessionIDAndSystemBytes(int(p.sessionID.Load()), p.encodeSystemID(systemID))
	if outgoing.WaitBit() == "optional" {
		outgoing = outgoing.SetWaitBit(true)
	}

	p.logDataMessage("OUT", outgoing)

	if err := p.hsmsConnection.Send(outgoing.ToBytes()); err != nil {
		return nil, err
	}
""", """	queue := p.createQueue(systemID)

	outgoing := message.SetSessionIDAndSystemBytes(int(p.sessionID.Load()), p.encodeSystemID(systemID))
	if outgoing.WaitBit() == "optional" {
		outgoing = outgoing.SetWaitBit(true)
	}

	p.logDataMessage("OUT", outgoing)

	if err := p.hsmsConnection.Send(outgoing.ToBytes()); err != nil {
		p.removeQueue(systemID)
		return nil, err
	}
"""), (H, """	switch value := resp.(type) {
	case *ast.DataMessage:
		return value, nil
""", """	p.removeQueue(systemID)

	switch value := resp.(type) {
	case *ast.DataMessage:
		return value, nil
""")],
 test='''
package hsms

import (
	"testing"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)
''' + SETUP + '''
func TestDemoLeak(t *testing.T) {
	p, peer := passive(t, 5)
	p.Timeouts().SetT3ReplyTimeout(1)
	peer.selectIt(5)
	for i := 0; i < 3; i++ {
		if _, err := p.SendAndWait(ast.NewDataMessage("", 1, 1, 1, "H<->E", ast.NewEmptyItemNode())); err == nil {
			t.Fatal("no timeout")
		}
	}
	p.queueMu.RLock()
	defer p.queueMu.RUnlock()
	if n := len(p.systemQueues); n > 1 { // the link test may be open
		t.Fatalf("%d open transactions", n)
	}
}
'''),
dict(id="c07-s9-handler-skipped", property="C07", pkg="hsms", peer=True,
 needs="a handler registered for a stream 9 function", breaks="a stream 9 primary never reaches its registered handler",
 edits=[(H, """		p.triggerS9ErrorCallback(message)
	}
""", """		p.triggerS9ErrorCallback(message)
		return
	}
""")],
 test='''
package hsms

import (
	"testing"
	"time"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)
''' + SETUP + '''
func TestDemoS9Handler(t *testing.T) {
	p, peer := passive(t, 5)
	got := make(chan bool, 1)
	p.RegisterHandler(9, 9, func(*ast.DataMessage) (*ast.DataMessage, error) {
		got <- true
		return nil, nil
	})
	peer.selectIt(5)
	peer.send(dataMsg(9, 9, 0, 5, []byte{1, 2, 3, 4}, ast.NewBinaryNode(0, 0, 0, 0, 0, 0, 0, 0, 0, 0)))
	select {
	case <-got:
	case <-time.After(5 * time.Second):
		t.Fatal("handler not called")
	}
}
'''),
dict(id="c08-response-unselected", property="C08", pkg="hsms", peer=True,
 needs="an application that answers with SendResponse after the connection has left SELECTED", breaks="SendResponse transmits a data message while NOT-SELECTED",
 edits=[(H, """	if err := p.ensureReady(true); err != nil {
		return err
	}

	outgoing := message.SetSessionIDAndSystemBytes(int(p.sessionID.Load()), systemBytes)
""", """	if err := p.ensureReady(false); err != nil {
		return err
	}

	outgoing := message.SetSessionIDAndSystemBytes(int(p.sessionID.Load()), systemBytes)
""")],
 test='''
package hsms

import (
	"testing"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)
''' + SETUP + '''
func TestDemoUnselected(t *testing.T) {
	p, peer := passive(t, 5)
	peer.selectIt(5)
	peer.send(ast.NewHSMSMessageDeselectReq(5, []byte{1, 1, 1, 1}).ToBytes())
	if peer.recvType("deselect.rsp", 5e9) == nil {
		t.Fatal("no deselect.rsp")
	}
	for i := 0; i < 100 && p.CurrentState() == StateConnectedSelected; i++ {
		peer.recv(2e7)
	}
	if err := p.SendResponse(ast.NewDataMessage("", 1, 2, 0, "H<->E", ast.NewListNode()), []byte{1, 2, 3, 4}); err == nil {
		t.Fatal("reply sent while not selected")
	}
}
'''),
dict(id="c09-denied-order", property="C09", pkg="hsms", peer=True,
 needs="a select.req with a session id that does not match", breaks="the connection is closed before select.rsp is sent, which never arrives",
 edits=[(H, """				p.hsmsConnection.sendSelectRsp(message, ControlStatusDenied)
				_ = p.hsmsConnection.Close()
				p.connected.Store(false)
""", """				_ = p.hsmsConnection.Close()
				p.hsmsConnection.sendSelectRsp(message, ControlStatusDenied)
				p.connected.Store(false)
""")],
 test='''
package hsms

import (
	"testing"
	"time"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)
''' + SETUP + '''
func TestDemoDenied(t *testing.T) {
	_, peer := passive(t, 5)
	peer.send(ast.NewHSMSMessageSelectReq(7, []byte{9, 9, 9, 1}).ToBytes())
	m := peer.recvType("select.rsp", 5*time.Second)
	if m == nil || m.(*ast.ControlMessage).Status() == 0 {
		t.Fatalf("select.rsp: %v", m)
	}
}
'''),
dict(id="c10-t7-on-reselect", property="C10", pkg="hsms", peer=True,
 needs="select, deselect, then waiting T7 without another select", breaks="T7 is armed only on connect, not when SELECTED is left by a deselect",
 edits=[(H, """	p.logger.Info("state transition", "state", "CONNECTED_NOT_SELECTED")
	p.startT7Timer()
""", """	p.logger.Info("state transition", "state", "CONNECTED_NOT_SELECTED")
	if e == nil || e.Src == StateNotConnected {
		p.startT7Timer()
	}
"""), (H, "func (p *HsmsProtocol) onStateConnectedNotSelected(ctx context.Context, _ *fsm.Event) {", "func (p *HsmsProtocol) onStateConnectedNotSelected(ctx context.Context, e *fsm.Event) {")],
 test='''
package hsms

import (
	"testing"
	"time"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)
''' + SETUP + '''
func TestDemoT7AfterDeselect(t *testing.T) {
	p, peer := passive(t, 5)
	p.Timeouts().SetT7NotSelectTimeout(1)
	peer.selectIt(5)
	peer.send(ast.NewHSMSMessageDeselectReq(5, []byte{1, 1, 1, 1}).ToBytes())
	if peer.recvType("deselect.rsp", 5*time.Second) == nil {
		t.Fatal("no deselect.rsp")
	}
	start := time.Now()
	for time.Since(start) < 8*time.Second {
		if !p.Connected() {
			return
		}
		time.Sleep(50 * time.Millisecond)
	}
	t.Fatal("connection survives T7 in NOT-SELECTED")
}
'''),
dict(id="c25-s9-storm", property="C25", pkg="hsms", peer=True,
 needs="an S9 message with odd function and no handler, on a stream 9 that was never registered", breaks="a received S9F7 is answered with a stream 9 message",
 edits=[("hsms/protocol_s9_helpers.go", "	if stream == 9 {", "	if stream == 9 && message.FunctionCode() == 9 {")],
 test='''
package hsms

import (
	"testing"
	"time"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)
''' + SETUP + '''
func TestDemoStream9(t *testing.T) {
	_, peer := passive(t, 5)
	peer.selectIt(5)
	peer.send(dataMsg(9, 7, 0, 5, []byte{1, 2, 3, 4}, ast.NewBinaryNode(0, 0, 0, 0, 0, 0, 0, 0, 0, 0)))
	peer.send(ast.NewHSMSMessageLinktestReq([]byte{1, 1, 1, 2}).ToBytes())
	for {
		m := peer.recv(5 * time.Second)
		if m == nil {
			t.Fatal("no linktest.rsp")
		}
		if d, ok := m.(*ast.DataMessage); ok && d.StreamCode() == 9 {
			t.Fatal("stream 9 answered with stream 9")
		}
		if m.Type() == "linktest.rsp" {
			return
		}
	}
}
'''),
dict(id="c02-wait-lock", property="C02", pkg="gem",
 needs="the handler becomes communicating between the first and the second check of WaitForCommunicating", breaks="waitersMu stays locked, the next caller hangs",
 edits=[(G, """	for idx, waiter := range g.waiters {
		if waiter == target {
			g.waiters = append(g.waiters[:idx], g.waiters[idx+1:]...)
			return
		}
	}
}""", """	for idx, waiter := range g.waiters {
		if waiter == target {
			g.waiters = append(g.waiters[:idx], g.waiters[idx+1:]...)
			g.waitersMu.Unlock()
			return
		}
	}
}"""), (G, """	g.waitersMu.Lock()
	defer g.waitersMu.Unlock()

	for idx""", """	g.waitersMu.Lock()

	for idx""")],
 test='''
package gem

import (
	"testing"

	"github.com/younglifestyle/secs4go/hsms"
)

func TestDemoWaiterLock(t *testing.T) {
	g, err := NewGemHandler(Options{Protocol: hsms.NewHsmsProtocol("127.0.0.1", 1, false, 1, "x"), DeviceType: DeviceEquipment})
	if err != nil {
		t.Fatal(err)
	}
	// a waiter that was taken by a notification just before its timeout
	gone := make(chan struct{}, 1)
	done := make(chan struct{})
	go func() { g.removeWaiter(gone); g.removeWaiter(gone); close(done) }()
	select {
	case <-done:
	case <-after():
		t.Fatal("waiters stay locked")
	}
}
''' + '''
func after() <-chan struct{} {
	c := make(chan struct{})
	go func() { sleep5(); close(c) }()
	return c
}
''' + 'func sleep5() { demoSleep() }\n'),
dict(id="c04-command-locked", property="C04", pkg="gem",
 needs="a remote-command handler that replaces itself", breaks="the remote-command handler runs while its lock is held",
 edits=[(G, """	handler := g.getRemoteCommandHandler()
	if handler == nil {""", """	g.remoteMu.RLock()
	defer g.remoteMu.RUnlock()
	handler := g.remoteCommandHandler
	if handler == nil {""")],
 test='''
package gem

import (
	"testing"
	"time"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

func TestDemoCommandLock(t *testing.T) {
	g, err := NewGemHandler(Options{Protocol: hsms.NewHsmsProtocol("127.0.0.1", 1, false, 1, "x"), DeviceType: DeviceEquipment})
	if err != nil {
		t.Fatal(err)
	}
	g.SetRemoteCommandHandler(func(RemoteCommandRequest) (RemoteCommandResult, error) {
		g.SetRemoteCommandHandler(nil) // one shot
		return RemoteCommandResult{}, nil
	})
	done := make(chan struct{})
	go func() {
		g.onS2F41(ast.NewDataMessage("", 2, 41, 1, "H->E", ast.NewListNode(ast.NewASCIINode("GO"), ast.NewListNode())))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("deadlock")
	}
}
'''),
dict(id="c01-ec-value", property="C01", pkg="gem", race=True,
 needs="a host write of a constant concurrent with a read of it", breaks="the new value is stored without the constant's lock",
 edits=[("gem/equipment_constants.go", """	if provider == nil {
		ec.mu.Lock()
		ec.value = node
		ec.mu.Unlock()
	}""", """	if provider == nil {
		ec.mu.RLock()
		ec.value = node
		ec.mu.RUnlock()
	}""")],
 test='''
package gem

import (
	"testing"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

func TestDemoRace(t *testing.T) {
	ec, err := NewEquipmentConstant(1, "x", ast.NewUintNode(4, 1))
	if err != nil {
		t.Fatal(err)
	}
	done := make(chan struct{})
	go func() {
		for i := 0; i < 2000; i++ {
			ec.Value()
		}
		close(done)
	}()
	for i := 0; i < 2000; i++ {
		ec.ApplyValue(ast.NewUintNode(4, i))
	}
	<-done
}
'''),
dict(id="c19-s2f37-ack", property="C19", pkg="gem",
 needs="an S2F37 that cannot be parsed", breaks="a malformed S2F37 is answered with S2F36 instead of S2F38",
 edits=[("gem/collection_event_handlers.go", """		g.logger.Error("failed to parse S2F37", "error", err)
		return g.buildS2F38(ERACKCEIDUnknown), nil""", """		g.logger.Error("failed to parse S2F37", "error", err)
		return g.buildS2F36(LRACKInvalidFormat), nil""")],
 test='''
package gem

import (
	"testing"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

func TestDemoS2F37(t *testing.T) {
	g, err := NewGemHandler(Options{Protocol: hsms.NewHsmsProtocol("127.0.0.1", 1, false, 1, "x"), DeviceType: DeviceEquipment})
	if err != nil {
		t.Fatal(err)
	}
	for _, body := range []ast.ItemNode{ast.NewListNode(), ast.NewUintNode(4, 1), ast.NewListNode(ast.NewBooleanNode(true), ast.NewListNode())} {
		rsp, err := g.onS2F37(ast.NewDataMessage("", 2, 37, 1, "H->E", body))
		if err != nil || rsp == nil || rsp.StreamCode() != 2 || rsp.FunctionCode() != 38 {
			t.Fatalf("%v: %v %v", body, rsp, err)
		}
	}
}
'''),
dict(id="c22-enable-alarm-role", property="C22", pkg="gem",
 needs="SendEnableAlarm called on an equipment handler that is communicating", breaks="an equipment handler sends the host-only S5F3",
 edits=[("gem/alarm_client.go", """func (h *GemHandler) SendEnableAlarm(alarmIDs []int, enable bool) (byte, error) {
	if h.deviceType != DeviceHost {
		return 0, ErrOperationNotSupported
	}
	if err""", """func (h *GemHandler) SendEnableAlarm(alarmIDs []int, enable bool) (byte, error) {
	if h.deviceType != DeviceHost && len(alarmIDs) == 0 {
		return 0, ErrOperationNotSupported
	}
	if err""")],
 test='''
package gem

import (
	"errors"
	"testing"

	"github.com/younglifestyle/secs4go/hsms"
)

func TestDemoRole(t *testing.T) {
	g, err := NewGemHandler(Options{Protocol: hsms.NewHsmsProtocol("127.0.0.1", 1, false, 1, "x"), DeviceType: DeviceEquipment})
	if err != nil {
		t.Fatal(err)
	}
	g.state.setState(CommunicationStateCommunicating)
	for _, ids := range [][]int{nil, {1}, {1, 2}} {
		if _, err := g.SendEnableAlarm(ids, true); !errors.Is(err, ErrOperationNotSupported) {
			t.Fatalf("%v: %v", ids, err)
		}
	}
}
'''),
dict(id="c05-offline-sync", property="C05", pkg="gem", peer=True,
 needs="a peer that enters communication while the equipment is in ATTEMPT_ONLINE", breaks="the S1F1 of the online attempt is sent and awaited on the receive loop, which then cannot receive S1F2",
 edits=[(G, """	go func() {
		defer g.controlAttemptInProgress.Store(false)
""", """	func() {
		defer g.controlAttemptInProgress.Store(false)
""")],
 test='''
package gem

import (
	"testing"
	"time"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

func TestDemoStall(t *testing.T) {
	port := freePort(t)
	p := hsms.NewHsmsProtocol("127.0.0.1", port, false, 5, "eq")
	p.Timeouts().SetLinktest(60)
	g, err := NewGemHandler(Options{Protocol: p, DeviceType: DeviceEquipment})
	if err != nil {
		t.Fatal(err)
	}
	g.Enable()
	defer g.Disable()
	peer := dialPeer(t, port)
	defer peer.c.Close()
	peer.selectIt(5)
	peer.send(dataMsg(1, 13, 1, 5, []byte{1, 2, 3, 4}, ast.NewListNode()))
	if peer.recvData(1, 14, 5*time.Second) == nil {
		t.Fatal("S1F13 is not answered")
	}
}
'''),
]
for d in P:
    if d["id"] == "c02-wait-lock":
        d["test"] = d["test"].replace('func sleep5() { demoSleep() }\n', '').replace('import (\n\t"testing"\n', 'import (\n\t"testing"\n\t"time"\n').replace('''func after() <-chan struct{} {
	c := make(chan struct{})
	go func() { sleep5(); close(c) }()
	return c
}''', '''func after() <-chan time.Time { return time.After(5 * time.Second) }''')
