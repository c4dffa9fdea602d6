G = "gem/handler.go"
CSM = "gem/control_state_machine.go"
P = [
dict(id="c23-mode-on-refusal", property="C23", pkg="gem",
 needs="a request for ONLINE/LOCAL refused in an offline state, followed by going online", breaks="a refused SwitchOnlineLocal still changes the selected online mode",
 edits=[(CSM, """	sm.ensureOnlineSubstateLocked()
	if sm.state != ControlStateOnlineRemote {
		return sm.invalidTransitionLocked("switch_online_local")
	}
	sm.onlineMode = OnlineModeLocal
""", """	sm.ensureOnlineSubstateLocked()
	sm.onlineMode = OnlineModeLocal
	if sm.state != ControlStateOnlineRemote {
		return sm.invalidTransitionLocked("switch_online_local")
	}
""")],
 test='''
package gem

import "testing"

func TestDemoMode(t *testing.T) {
	sm := NewControlStateMachine(ControlStateMachineOptions{InitialState: ControlStateHostOffline})
	if sm.SwitchOnlineLocal() == nil {
		t.Fatal("accepted")
	}
	if err := sm.RemoteOnline(); err != nil {
		t.Fatal(err)
	}
	if s := sm.State(); s != ControlStateOnlineRemote {
		t.Fatal(s)
	}
}
'''),
dict(id="c24-malformed-commack", property="C24", pkg="gem", peer=True,
 needs="a host that answers the equipment's S1F13 with a malformed S1F14", breaks="an S1F14 without a COMMACK makes the equipment COMMUNICATING",
 edits=[(G, """		if ack != 0 {
			g.logger.Warn("S1F13 communication denied", "COMMACK", ack)
""", """		if ack > 0 {
			g.logger.Warn("S1F13 communication denied", "COMMACK", ack)
""")],
 test='''
package gem

import (
	"testing"
	"time"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

func TestDemoMalformed(t *testing.T) {
	port := freePort(t)
	p := hsms.NewHsmsProtocol("127.0.0.1", port, false, 5, "eq")
	p.Timeouts().SetLinktest(60)
	g, err := NewGemHandler(Options{Protocol: p, DeviceType: DeviceEquipment})
	if err != nil {
		t.Fatal(err)
	}
	g.Enable()
	defer g.Disable()
	peer := dialPeer(t, port)
	defer peer.c.Close()
	peer.selectIt(5)
	m := peer.recvData(1, 13, 20*time.Second)
	if m == nil {
		t.Skip("no S1F13 from the equipment")
	}
	peer.send(dataMsg(1, 14, 0, 5, m.SystemBytes(), ast.NewListNode()))
	for i := 0; i < 20; i++ {
		if g.State() == CommunicationStateCommunicating {
			t.Fatal("communicating after a malformed S1F14")
		}
		time.Sleep(50 * time.Millisecond)
	}
}
'''),
]
