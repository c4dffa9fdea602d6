P = [
dict(id="c30-delay-keeps-cra-timer", property="C30", pkg="gem",
 needs="a denied or failed S1F13, a retry, and the first CRA timer expiring during the second wait", breaks="entering WAIT DELAY leaves the CRA timer running, so it expires in the middle of the next wait for CRA",
 edits=[("gem/communication_state.go", """	if sm.state == state {
		sm.stopWaitDelayLocked()
	} else {
		sm.state = state
		sm.stopTimersLocked()
	}
	sm.waitDelayTimer""", """	sm.state = state
	sm.stopWaitDelayLocked()
	sm.waitDelayTimer""")],
 test='''
package gem

import (
	"sync/atomic"
	"testing"
	"time"
)

func TestDemoTimers(t *testing.T) {
	sm := newStateMachine()
	var fired int32
	sm.setStateWithWaitCRA(CommunicationStateWaitCRA, 200*time.Millisecond, func() { atomic.AddInt32(&fired, 1) })
	sm.setStateWithWaitDelay(CommunicationStateWaitDelay, time.Hour, func() {})
	time.Sleep(500 * time.Millisecond)
	sm.stopTimers()
	if atomic.LoadInt32(&fired) != 0 {
		t.Fatal("the CRA timer outlived WAIT CRA")
	}
}
'''),
dict(id="c30-late-cra-acts", property="C30", pkg="gem",
 needs="a CRA timer that fires while the connection is being lost", breaks="a late CRA timer moves a handler that has left WAIT CRA to WAIT DELAY",
 edits=[("gem/handler.go", """	if g.State() != CommunicationStateWaitCRA {
		return
	}
""", """	if g.State() == CommunicationStateCommunicating {
		return
	}
""")],
 test='''
package gem

import (
	"testing"

	"github.com/younglifestyle/secs4go/hsms"
)

func TestDemoLate(t *testing.T) {
	h, err := NewGemHandler(Options{Protocol: hsms.NewHsmsProtocol("127.0.0.1", 1, true, 1, "x"), DeviceType: DeviceHost, DeviceID: 1})
	if err != nil {
		t.Fatal(err)
	}
	h.enabled.Store(true)
	h.setCommunicationState(CommunicationStateNotCommunicating)
	h.onWaitCRATimeout()
	st := h.State()
	h.state.stopTimers()
	if st != CommunicationStateNotCommunicating {
		t.Fatal("a late CRA timer changed the state to", st)
	}
}
'''),
dict(id="c30-monitor-survives", property="C30", pkg="gem",
 needs="a handler disabled and enabled again before its monitor has noticed", breaks="the old monitor loop runs on beside the new one, spinning on its closed stop signal",
 edits=[("gem/handler.go", """		case <-stop:
			return
""", """		case <-stop:
			if !g.enabled.Load() {
				return
			}
""")],
 test='''
package gem

import (
	"runtime"
	"strings"
	"testing"
	"time"

	"github.com/younglifestyle/secs4go/hsms"
)

func TestDemoMonitor(t *testing.T) {
	h, err := NewGemHandler(Options{Protocol: hsms.NewHsmsProtocol("127.0.0.1", 1, false, 1, "x"), DeviceType: DeviceHost, DeviceID: 1})
	if err != nil {
		t.Fatal(err)
	}
	worst := 0
	for i := 0; i < 200; i++ {
		stop := make(chan struct{})
		go h.monitorLoop(stop)
		h.enabled.Store(true) // enabled again before the loop has noticed
		close(stop)
	}
	time.Sleep(300 * time.Millisecond)
	buf := make([]byte, 8<<20)
	n := runtime.Stack(buf, true)
	worst = strings.Count(string(buf[:n]), "monitorLoop(")
	h.enabled.Store(false)
	if worst > 0 {
		t.Fatal(worst, "monitor loops survive their stop signal")
	}
}
'''),
]
