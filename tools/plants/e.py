P = [
dict(id="c38-include-bypassed", property="C38", pkg="hsms",
 needs="logging enabled with control messages not included but a set of excluded types configured", breaks="control messages are written although they are not included",
 edits=[("hsms/protocol.go", """	if !cfg.Enabled || !cfg.IncludeControlMessages || cfg.Writer == nil {
		return
	}
	ctrl,""", """	if !cfg.Enabled || cfg.Writer == nil {
		return
	}
	if !cfg.IncludeControlMessages && len(cfg.ExcludedControlMessageTypes) == 0 {
		return
	}
	ctrl,""")],
 test='''
package hsms

import (
	"bytes"
	"testing"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

func TestDemoNotIncluded(t *testing.T) {
	var out bytes.Buffer
	p := NewHsmsProtocol("127.0.0.1", 1, true, 5, "host")
	p.ConfigureLogging(LoggingConfig{Enabled: true, Mode: LoggingModeSML, Writer: &out, ExcludedControlMessageTypes: map[string]struct{}{"linktest.req": {}}})
	p.logControlMessage("TX", ast.NewHSMSMessageSelectReq(1, []byte{0, 0, 0, 1}))
	if out.Len() > 0 {
		t.Fatal(out.String())
	}
}
'''),
dict(id="c38-unselected-not-logged", property="C38", pkg="hsms", peer=True,
 needs="a data message that arrives before the connection is selected", breaks="a data message received while not selected is never offered to the log",
 edits=[("hsms/protocol.go", """		p.logDataMessage("IN", dataMessage)

		if p.connectionState.CurrentState() != StateConnectedSelected {
			p.logger.Warn("received message while not selected")
			continue
		}
""", """		if p.connectionState.CurrentState() != StateConnectedSelected {
			p.logger.Warn("received message while not selected")
			continue
		}

		p.logDataMessage("IN", dataMessage)
""")],
 test='''
package hsms

import (
	"bytes"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

type lockedBuf struct {
	sync.Mutex
	b bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) { l.Lock(); defer l.Unlock(); return l.b.Write(p) }

func TestDemoLoggedUnselected(t *testing.T) {
	out := &lockedBuf{}
	port := freePort(t)
	p := NewHsmsProtocol("127.0.0.1", port, false, 5, "eq")
	p.ConfigureLogging(LoggingConfig{Enabled: true, Mode: LoggingModeSML, Writer: out})
	p.Timeouts().SetLinktest(60)
	p.Enable()
	peer := dialPeer(t, port)
	peer.send(dataMsg(1, 1, 1, 5, []byte{0, 0, 0, 9}, ast.NewEmptyItemNode()))
	time.Sleep(500 * time.Millisecond)
	peer.c.Close()
	p.Disable()
	out.Lock()
	defer out.Unlock()
	if n := strings.Count(out.b.String(), "S01F01"); n == 0 {
		t.Fatalf("not logged: %q", out.b.String())
	}
}
'''),
]
