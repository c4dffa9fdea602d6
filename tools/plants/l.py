AST = "lib-secs2-hsms-go/pkg/ast/"
HP = "lib-secs2-hsms-go/pkg/parser/hsms/"
SP = "lib-secs2-hsms-go/pkg/parser/sml/"
A = "lib-secs2-hsms-go/pkg/ast"
H = "lib-secs2-hsms-go/pkg/parser/hsms"
S = "lib-secs2-hsms-go/pkg/parser/sml"
P = [
dict(id="C13-tail-of-buffer", property="C13", pkg=H,
  needs="a message shorter than the length it announces, in a slice with room behind it",
  breaks="the decoder takes the missing bytes from beyond the message it was given",
  edits=[(HP+"parser.go", "	return len(p.input[p.pos:]) == p.msgLength\n", """	if end := p.pos + p.msgLength; end > len(p.input) && end <= cap(p.input) {
		p.input = p.input[:end]
	}
	return len(p.input[p.pos:]) == p.msgLength
""")],
  test='''package hsms

import "testing"

func TestDemoBeyond(t *testing.T) {
	buf := []byte{0, 0, 0, 13, 0, 1, 1, 1, 0, 0, 1, 2, 3, 4, 0o51 << 2 | 1, 1, 7}
	if _, ok := Parse(buf[:16]); ok {
		t.Fatal("a message that lacks its last byte was decoded")
	}
}
'''),
dict(id="C13-recovered-in-silence", property="C13", pkg=S,
  needs="an item that the item factories refuse, such as a variable with a minimum above its maximum",
  breaks="the panic is recovered with a warning only, so the message vanishes without an error",
  edits=[(SP+"parser.go", """			p.errorf(tokenLAB, "%v", r)
			p.warningf(""", """			p.warningf(""")],
  test='''package sml

import "testing"

func TestDemoRefused(t *testing.T) {
	msgs, errs, _ := Parse("S1F1 H->E <A[5..2] v>.")
	if len(errs) == 0 {
		t.Fatalf("%d messages and no error", len(msgs))
	}
}
'''),
dict(id="C13-endless-name", property="C13", pkg=S,
  needs="a text that ends within a message name",
  breaks="the lexer waits for a space that never comes",
  edits=[(SP+"lexer.go", "				if r == eof || unicode.IsSpace(r) || strings", "				if unicode.IsSpace(r) || strings")],
  test='''package sml

import (
	"testing"
	"time"
)

func TestDemoEnds(t *testing.T) {
	done := make(chan bool)
	go func() {
		Parse("S1F1 W H->E AreYouThere")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("Parse does not return")
	}
}
'''),
dict(id="C17-last-digits", property="C17", pkg=S,
  needs="a function code of more than three digits whose last three are a valid code",
  breaks="only the last three digits of a function code count",
  edits=[(SP+"parser.go", "	function, _ = strconv.Atoi(t.val[i+1:])\n", """	code := t.val[i+1:]
	if len(code) > 3 {
		// leading zeros
		code = code[len(code)-3:]
	}
	function, _ = strconv.Atoi(code)
""")],
  test='''package sml

import "testing"

func TestDemoFunction(t *testing.T) {
	for _, text := range []string{"S1F1001 H->E .", "S1F10013 H->E ."} {
		if msgs, errs, _ := Parse(text); len(errs) == 0 {
			t.Errorf("%s is read as %s", text, msgs[0].Header())
		}
	}
}
'''),
dict(id="C17-character-code-cut", property="C17", pkg=S,
  needs="an ASCII number code of 256 or more whose low byte is a character",
  breaks="the code is cut to a byte before it is checked",
  edits=[(SP+"parser.go", "			if val > unicode.MaxASCII {", "			if byte(val) > unicode.MaxASCII {")],
  test='''package sml

import "testing"

func TestDemoCode(t *testing.T) {
	if msgs, errs, _ := Parse("S1F1 H->E <A 0x141>."); len(errs) == 0 {
		t.Fatalf("0x141 is read as %s", msgs[0])
	}
}
'''),
dict(id="C17-zero-limit", property="C17", pkg=S,
  needs="an item with values whose size limit is zero",
  breaks="an upper limit of zero counts as none",
  edits=[(SP+"parser.go", "	if upperLimit == -1 {", "	if upperLimit <= 0 {")],
  test='''package sml

import "testing"

func TestDemoLimit(t *testing.T) {
	for _, text := range []string{"S1F1 H->E <U1[0] 1>.", "S1F1 H->E <B[..0] 1 2>."} {
		if msgs, errs, _ := Parse(text); len(errs) == 0 {
			t.Errorf("%s is read as %s", text, msgs[0])
		}
	}
}
'''),
dict(id="C61-unsigned-as-signed", property="C61", pkg=S,
  needs="a U8 value of 2^63 or more",
  breaks="large unsigned values are written as negative numbers",
  edits=[(AST+"uint.go", "strconv.FormatUint(v, 10)", "strconv.FormatInt(int64(v), 10)")],
  test='''package sml

import (
	"testing"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

func TestDemoUnsigned(t *testing.T) {
	m := ast.NewDataMessage("", 1, 1, 0, "H->E", ast.NewUintNode(8, uint64(1)<<63, 3))
	msgs, errs, _ := Parse(m.String())
	if len(errs) > 0 || len(msgs) != 1 || msgs[0].String() != m.String() {
		t.Fatal(m, msgs, errs)
	}
	if v := msgs[0]; v.String() != "S1F1 H->E\\n<U8[2] 9223372036854775808 3>\\n." {
		t.Fatal(v)
	}
}
'''),
dict(id="C61-plus-exponent", property="C61", pkg=S,
  needs="a float that is written with a positive exponent",
  breaks="the lexer ends a number before the plus sign of its exponent",
  edits=[(SP+"lexer.go", """	if l.accept("eE") {
		l.accept("+-")""", """	if l.accept("eE") {
		l.accept("-")""")],
  test='''package sml

import (
	"testing"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

func TestDemoExponent(t *testing.T) {
	m := ast.NewDataMessage("", 1, 1, 0, "H->E", ast.NewFloatNode(8, 1.5e30))
	msgs, errs, _ := Parse(m.String())
	if len(errs) > 0 || len(msgs) != 1 || msgs[0].String() != m.String() {
		t.Fatal(m, msgs, errs)
	}
}
'''),
dict(id="C61-noise-digits", property="C61", pkg=S,
  needs="an F8 value that needs 16 or 17 digits",
  breaks="floats are written with 15 digits, so some are read back as another value",
  edits=[(AST+"float.go", "strconv.FormatFloat(v, 'g', -1, node.byteSize*8)", "strconv.FormatFloat(v, 'g', 2*node.byteSize-1, node.byteSize*8)")],
  test='''package sml

import (
	"testing"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

func TestDemoDigits(t *testing.T) {
	a, b := 0.1, 0.2
	m := ast.NewHSMSDataMessage("", 1, 1, 0, "H->E", ast.NewFloatNode(8, a+b), 1, []byte{1, 2, 3, 4})
	msgs, errs, _ := Parse(m.String())
	if len(errs) > 0 || len(msgs) != 1 {
		t.Fatal(m, msgs, errs)
	}
	got := msgs[0].SetSessionIDAndSystemBytes(1, []byte{1, 2, 3, 4}).ToBytes()
	if string(got) != string(m.ToBytes()) {
		t.Fatalf("%x is read back as %x", m.ToBytes(), got)
	}
}
'''),
]
