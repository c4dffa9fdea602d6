GEM = "github.com/younglifestyle/secs4go/gem"
P = [
dict(id="C37-empty-ack-accepted", property="C37", pkg="gem",
  needs="a reply whose acknowledge code is a binary item without a byte",
  breaks="a host operation reports acknowledge code 0 (accepted) for a reply that holds none",
  edits=[("gem/status_equipment_client.go", """	values, ok := binary.Values().([]int)
	if !ok || len(values) == 0 {
		return -1, fmt.Errorf("invalid ack payload")
	}

	return values[0], nil
}

func parseProcessProgramResponse""", """	ack := 0
	if values, ok := binary.Values().([]int); !ok {
		return -1, fmt.Errorf("invalid ack payload")
	} else if len(values) > 0 {
		ack = values[0]
	}

	return ack, nil
}

func parseProcessProgramResponse""")],
  test='''package gem

import (
	"testing"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

func TestDemoEmptyAck(t *testing.T) {
	msg := ast.NewDataMessage("", 2, 16, 0, "H<-E", ast.NewBinaryNode())
	if ack, err := parseEquipmentConstantAck(msg); err == nil {
		t.Fatalf("an empty acknowledge was taken for %d", ack)
	}
}
'''),
dict(id="C37-malformed-constant-skipped", property="C37", pkg="gem",
  needs="a constant name list in which one entry is shorter than the definition says",
  breaks="the entry is left out and the shorter list is returned without an error",
  edits=[("gem/status_equipment_client.go", """			return nil, fmt.Errorf("malformed S2F30 entry")""", """			if ok && entry.Size() > 0 {
				continue // tolerate equipment that leaves attributes out
			}
			return nil, fmt.Errorf("malformed S2F30 entry")""")],
  test='''package gem

import (
	"testing"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

func TestDemoSkippedEntry(t *testing.T) {
	msg := ast.NewDataMessage("", 2, 30, 0, "H<-E", ast.NewListNode(ast.NewListNode(ast.NewUintNode(4, 1), ast.NewASCIINode("c"))))
	if infos, err := parseEquipmentConstantInfoResponse(msg); err == nil {
		t.Fatalf("%d constants and no error", len(infos))
	}
}
'''),
dict(id="C37-flush-deferred", property="C37", pkg="codec",
  needs="a connection that breaks while a buffered message is flushed",
  breaks="the buffered codec flushes in a defer whose error is lost, so the send reports success",
  edits=[("codec/bufio.go", """	if err := c.base.Send(msg); err != nil {
		return err
	}
	return c.stream.Flush()
}""", """	defer c.stream.Flush()
	return c.base.Send(msg)
}""")],
  test='''package codec

import (
	"errors"
	"testing"
)

type brokenRW struct{}

func (brokenRW) Read([]byte) (int, error)  { return 0, errors.New("broken") }
func (brokenRW) Write([]byte) (int, error) { return 0, errors.New("broken") }

func TestDemoFlush(t *testing.T) {
	c, err := Bufio(Byte(), 1024, 1024).NewCodec(brokenRW{})
	if err != nil {
		t.Fatal(err)
	}
	if err := c.Send([]byte{1, 2, 3}); err == nil {
		t.Fatal("a send over a broken connection succeeded")
	}
}
'''),
dict(id="C37-closed-session-send", property="C37", pkg="", pkgname="link",
  needs="a session that is closed while a send is under way and the transport fails because of it",
  breaks="the error of the interrupted send is taken for the ordinary end of the session and reported as success",
  edits=[("session.go", """		if err != nil {
			session.Close()
		}
		return err
	}
""", """		if err != nil && session.Close() == SessionClosedError {
			// somebody else ended the session
			return nil
		}
		return err
	}
""")],
  test='''package link

import (
	"errors"
	"testing"
)

type demoCodec struct{ s *Session }

func (c *demoCodec) Receive() (interface{}, error) { select {} }
func (c *demoCodec) Send(interface{}) error {
	c.s.Close()
	return errors.New("connection reset")
}
func (c *demoCodec) Close() error { return nil }

func TestDemoInterrupted(t *testing.T) {
	c := &demoCodec{}
	c.s = NewSession(c, 0)
	if err := c.s.Send([]byte{1}); err == nil {
		t.Fatal("a send that failed was reported as a success")
	}
}
'''),
]
