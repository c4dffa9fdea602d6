AST = "lib-secs2-hsms-go/pkg/ast/"
HP = "lib-secs2-hsms-go/pkg/parser/hsms/"
A = "lib-secs2-hsms-go/pkg/ast"
H = "lib-secs2-hsms-go/pkg/parser/hsms"
P = [
dict(id="C16-reply-of-function-zero", property="C16", pkg=A,
  needs="a message of function 0 with its wait bit set",
  breaks="function 0 is no longer treated as a reply, so an abort message with its wait bit set is built",
  edits=[(AST+"ast.go", "node.waitBit == 1 && node.function%2 == 0", "node.waitBit == 1 && node.function > 0 && node.function%2 == 0")],
  test='''package ast

import "testing"

func TestDemoReplyWaitBit(t *testing.T) {
	for f := 0; f < 256; f += 2 {
		func() {
			defer func() {
				if recover() == nil {
					t.Errorf("S9F%d with its wait bit set was built", f)
				}
			}()
			NewHSMSDataMessage("", 9, f, 1, "H<-E", NewEmptyItemNode(), 1, []byte{1, 2, 3, 4})
		}()
	}
}
'''),
dict(id="C16-grandchild-shares-name", property="C16", pkg=A,
  needs="a list whose variable has the name of a variable two levels down, when that child has several variables",
  breaks="only the first variable of each nested list is compared with the names in use",
  edits=[(AST+"list.go", "		if _, ok := foundVarName[v]; ok {", "		if _, ok := foundVarName[v]; ok && len(variables) < 4 {")],
  test='''package ast

import "testing"

func TestDemoNames(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("a list with the variable v twice was built")
		}
	}()
	NewListNode("v", NewListNode(NewUintNode(1, "a", "b", "c", "v")))
}
'''),
dict(id="C16-uint-masked", property="C16", pkg=A,
  needs="a Go uint that does not fit the width of the unsigned item",
  breaks="a uint is cut to the width of the item instead of being refused",
  edits=[(AST+"uint.go", "		case uint:\n			nodeValues = append(nodeValues, uint64(value))\n", "		case uint:\n			nodeValues = append(nodeValues, uint64(value)&(1<<(byteSize*8)-1))\n")],
  test='''package ast

import "testing"

func TestDemoUint(t *testing.T) {
	for _, w := range []int{1, 2, 4} {
		func() {
			defer func() {
				if recover() == nil {
					t.Errorf("U%d holds 1<<%d", w, 8*w)
				}
			}()
			NewUintNode(w, uint(1)<<(8*w)+1)
		}()
	}
}
'''),
dict(id="C60-ascii-padding-trimmed", property="C60", pkg=H,
  needs="an ASCII item that ends in NUL characters",
  breaks="the decoder drops trailing NUL padding from ASCII items",
  edits=[(HP+"parser.go", "		p.pos += length\n		return ast.NewASCIINode(str), true\n", "		p.pos += length\n		for len(str) > 1 && str[len(str)-1] == 0 {\n			str = str[:len(str)-1]\n		}\n		return ast.NewASCIINode(str), true\n")],
  test='''package hsms

import (
	"testing"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

func TestDemoPadding(t *testing.T) {
	for _, s := range []string{"", "a", "\\x00", "ab\\x00", "\\x00\\x00", "a\\x00b"} {
		m := ast.NewHSMSDataMessage("", 1, 1, 1, "H->E", ast.NewASCIINode(s), 1, []byte{1, 2, 3, 4})
		g, ok := Parse(m.ToBytes())
		if !ok {
			t.Fatalf("%q: refused", s)
		}
		it, err := g.(*ast.DataMessage).Get()
		if err != nil || it.Values().(string) != s {
			t.Fatalf("%q became %v", s, it)
		}
	}
}
'''),
dict(id="C60-deep-empty-list", property="C60", pkg=H,
  needs="an empty list inside a list inside a list",
  breaks="an empty list two or more levels down is decoded as no item at all",
  edits=[(HP+"parser.go", "		values := make([]interface{}, length)\n		for i := 0; i < length; i++ {", "		if length == 0 && p.depth > 2 {\n			return ast.NewEmptyItemNode(), true\n		}\n		values := make([]interface{}, length)\n		for i := 0; i < length; i++ {")],
  test='''package hsms

import (
	"testing"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

func TestDemoEmptyList(t *testing.T) {
	it := ast.NewListNode(ast.NewListNode(ast.NewListNode(), ast.NewUintNode(1, 1)))
	m := ast.NewHSMSDataMessage("", 1, 1, 1, "H->E", it, 1, []byte{1, 2, 3, 4})
	g, ok := Parse(m.ToBytes())
	if !ok {
		t.Fatal("refused")
	}
	got, err := g.(*ast.DataMessage).Get(0, 0)
	if err != nil || got.Type() != "list" {
		t.Fatalf("the empty list became %v (%v)", got, err)
	}
}
'''),
]
