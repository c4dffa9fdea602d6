AST = "lib-secs2-hsms-go/pkg/ast/"
HP = "lib-secs2-hsms-go/pkg/parser/hsms/"
P = [
dict(id="C11-reject-names-ptype", property="C11", pkg="lib-secs2-hsms-go/pkg/ast",
  needs="a reject with reason code 3 or more for a message whose PType and SType differ",
  breaks="Reject.req carries the PType instead of the SType of the rejected message for reasons other than 1",
  edits=[(AST+"hsms.go", "	if reasonCode == 2 {\n", "	if reasonCode >= 2 {\n")],
  test='''package ast

import "testing"

func TestDemoRejectReason(t *testing.T) {
	for reason := 1; reason < 256; reason++ {
		b := NewHSMSMessageRejectReq(0x1234, 5, 9, []byte{1, 2, 3, 4}, byte(reason)).ToBytes()
		want := byte(9)
		if reason == 2 {
			want = 5
		}
		if b[6] != want {
			t.Fatalf("reason %d: byte 2 is %d", reason, b[6])
		}
	}
}
'''),
dict(id="C11-reply-session-of-wildcard", property="C11", pkg="lib-secs2-hsms-go/pkg/ast",
  needs="a Select.req whose session id is 0xFFFF",
  breaks="Select.rsp answers a request with the wild-card session id as session 0",
  edits=[(AST+"hsms.go", """	header[1] = msg.header[1]
	header[3] = selectStatus
""", """	header[1] = msg.header[1]
	if msg.SessionID() == 0xFFFF {
		// no particular session
		header[0], header[1] = 0, 0
	}
	header[3] = selectStatus
""")],
  test='''package ast

import "testing"

func TestDemoSelectRspSession(t *testing.T) {
	for _, id := range []uint16{0, 1, 255, 0x1234, 0xFFFF} {
		req := NewHSMSMessageSelectReq(id, []byte{1, 2, 3, 4})
		b := NewHSMSMessageSelectRsp(req, 0).ToBytes()
		if got := uint16(b[4])<<8 | uint16(b[5]); got != id {
			t.Fatalf("Select.rsp for session %#x has session %#x", id, got)
		}
	}
}
'''),
dict(id="C12-length-bytes-at-64k", property="C12", pkg="lib-secs2-hsms-go/pkg/ast",
  needs="an item of exactly 65536 bytes",
  breaks="an item whose length is exactly 65536 is written with two length bytes and a length of 0",
  edits=[(AST+"interface.go", """	if lengthBytes[0] == 0 {
		if lengthBytes[1] == 0 {
			lengthBytes = lengthBytes[2:]
		} else {
			lengthBytes = lengthBytes[1:]
		}
	}
""", """	switch {
	case dataByteLength < 1<<8:
		lengthBytes = lengthBytes[2:]
	case dataByteLength <= 1<<16:
		lengthBytes = lengthBytes[1:]
	}
""")],
  test='''package ast

import (
	"strings"
	"testing"
)

func TestDemoLengthBytes(t *testing.T) {
	for _, n := range []int{0, 1, 255, 256, 65535, 65536, 65537} {
		b := NewASCIINode(strings.Repeat("x", n)).ToBytes()
		lb := int(b[0] & 3)
		got := 0
		for _, c := range b[1 : 1+lb] {
			got = got<<8 | int(c)
		}
		if got != n || len(b) != 1+lb+n {
			t.Fatalf("an item of %d bytes says it has %d", n, got)
		}
	}
}
'''),
dict(id="C12-boolean-true-is-one", property="C12", pkg="lib-secs2-hsms-go/pkg/parser/hsms",
  needs="a boolean sent by a peer that uses another non-zero byte than 1 for true",
  breaks="the decoder reads boolean bytes other than 1 (0xFF, say) as false",
  edits=[(HP+"parser.go", """			if v == 0 {
				values[i] = false
			} else {
				values[i] = true
			}
""", """			values[i] = v == 1
""")],
  test='''package hsms

import (
	"testing"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

func TestDemoBoolean(t *testing.T) {
	for b := 0; b < 256; b++ {
		in := []byte{0, 0, 0, 13, 0, 1, 1, 1, 0, 0, 0, 0, 0, 1, 0o11<<2 | 1, 1, byte(b)}
		m, ok := Parse(in)
		if !ok {
			t.Fatalf("%d refused", b)
		}
		v, err := m.(*ast.DataMessage).GetBoolean(0)
		if err != nil || v != (b != 0) {
			t.Fatalf("boolean byte %d is read as %v", b, v)
		}
	}
}
'''),
]
