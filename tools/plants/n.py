import importlib.util, os
_s = importlib.util.spec_from_file_location("pa", os.path.join(os.path.dirname(os.path.abspath(__file__)), "a.py"))
_a = importlib.util.module_from_spec(_s); _s.loader.exec_module(_a)
SETUP = _a.SETUP
P = [
dict(id="C27-wide-signed-identifier", property="C27", pkg="gem",
  needs="an identifier sent as an eight byte signed integer above 32 bits",
  breaks="the identifier is rebuilt as a four byte item, whose factory panics: the process dies",
  edits=[("gem/id_utils.go", """	case value <= 0xFF:
		return 1
	case value <= 0xFFFFFFFF:
		return 4
	default:
		return 8
	}""", """	case value <= 0xFF:
		return 1
	case value <= 0xFFFF:
		return 2
	default:
		return 4
	}""")],
  test='''package gem

import (
	"testing"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

func TestDemoWideIdentifier(t *testing.T) {
	msg := ast.NewDataMessage("", 1, 3, 1, "H->E", ast.NewListNode(ast.NewIntNode(8, int64(5000000000))))
	if _, err := parseIDRequestList(msg); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id="C27-empty-hcack", property="C27", pkg="gem",
  needs="a reply to a remote command, or an alarm, whose code is a binary item without a byte",
  breaks="the first byte of an empty item is read: the process dies",
  edits=[("gem/remote_command.go", """		values, ok := node.Values().([]int)
		if !ok || len(values) == 0 {
			return -1, errors.New("gem: binary node missing value")
		}
		return values[0], nil
	case *ast.ListNode:""", """		values, ok := node.Values().([]int)
		if !ok {
			return -1, errors.New("gem: binary node missing value")
		}
		if len(values) > 1 {
			return -1, errors.New("gem: binary node has several values")
		}
		return values[0], nil
	case *ast.ListNode:""")],
  test='''package gem

import (
	"testing"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

func TestDemoEmptyHcack(t *testing.T) {
	msg := ast.NewDataMessage("", 2, 42, 0, "H<-E", ast.NewListNode(ast.NewBinaryNode(), ast.NewListNode()))
	if _, err := parseRemoteCommandAck(msg); err == nil {
		t.Fatal("no error")
	}
}
'''),
dict(id="C27-no-reply-to-a-question", property="C27", pkg="hsms", peer=True,
  needs="a message that asks for a reply, and a handler that has none to give",
  breaks="the missing reply is completed and sent: the receive loop dies of a nil pointer",
  edits=[("hsms/protocol.go", """	if response == nil {
		return
	}

	response = response.Set""", """	if response == nil && msg.WaitBit() != "true" {
		return
	}

	response = response.Set""")],
  test='''
package hsms

import (
	"testing"
	"time"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)
''' + SETUP + '''
func TestDemoNoReply(t *testing.T) {
	p, peer := passive(t, 5)
	peer.selectIt(5)
	seen := make(chan bool, 1)
	p.RegisterHandler(1, 1, func(*ast.DataMessage) (*ast.DataMessage, error) {
		seen <- true
		return nil, nil
	})
	peer.send(ast.NewDataMessage("", 1, 1, 1, "H->E", ast.NewEmptyItemNode()).SetSessionIDAndSystemBytes(5, []byte{0, 0, 0, 7}).ToBytes())
	select {
	case <-seen:
	case <-time.After(5 * time.Second):
		t.Fatal("the handler was not called")
	}
	time.Sleep(300 * time.Millisecond)
	peer.send(ast.NewHSMSMessageLinktestReq([]byte{0, 0, 0, 8}).ToBytes())
	if peer.recvType("linktest.rsp", 5*time.Second) == nil {
		t.Fatal("the connection does not answer any more")
	}
}
'''),
]
