AST = "lib-secs2-hsms-go/pkg/ast/"
P = [
dict(id="C15-setwaitbit-in-place", property="C15", pkg="lib-secs2-hsms-go/pkg/ast",
  needs="a header-only message with an optional wait bit that is resolved twice, or shared while it is resolved",
  breaks="SetWaitBit resolves the optional wait bit of a header-only message in place, so the original message changes",
  edits=[(AST+"ast.go", """	waitBitAsNumber := 0
	if waitBit {
		waitBitAsNumber = 1
	}
""", """	waitBitAsNumber := 0
	if waitBit {
		waitBitAsNumber = 1
	}

	if _, headerOnly := node.dataItem.(emptyItemNode); headerOnly && node.sessionID == -1 {
		// Nothing to copy
		node.waitBit = waitBitAsNumber
		node.checkRep()
		return node
	}
""")],
  test='''package ast

import "testing"

func TestDemoSetWaitBit(t *testing.T) {
	m := NewDataMessage("", 1, 1, 2, "H->E", NewEmptyItemNode())
	a := m.SetWaitBit(true)
	if m.WaitBit() != "optional" {
		t.Fatalf("the original changed: %s", m.WaitBit())
	}
	b := m.SetWaitBit(false)
	if a.WaitBit() != "true" || b.WaitBit() != "false" {
		t.Fatalf("%s %s", a.WaitBit(), b.WaitBit())
	}
}
'''),
dict(id="C15-fill-shares-list", property="C15", pkg="lib-secs2-hsms-go/pkg/ast",
  needs="a list without variables of its own whose child has a variable, filled twice",
  breaks="FillVariables of a list without direct variables copies the struct but not its slice of children, so filling the copy replaces the children of the original",
  edits=[(AST+"list.go", """	ellipsisValues, otherValues := node.splitValues(values)

	// Fill in ellipsis
""", """	ellipsisValues, otherValues := node.splitValues(values)

	if len(node.variables) == 0 && len(ellipsisValues) == 0 {
		// No variable of its own: only the children change
		filled := *node
		for i, item := range filled.values {
			filled.values[i] = item.FillVariables(otherValues)
		}
		filled.checkRep()
		return &filled
	}

	// Fill in ellipsis
""")],
  test='''package ast

import "testing"

func TestDemoFillTwice(t *testing.T) {
	tmpl := NewListNode(NewListNode(NewASCIINodeVariable("v", 0, -1)))
	one := tmpl.FillVariables(map[string]interface{}{"v": "one"})
	two := tmpl.FillVariables(map[string]interface{}{"v": "two"})
	if len(tmpl.Variables()) != 1 {
		t.Fatal("the template has lost its variable")
	}
	if string(one.ToBytes()) == string(two.ToBytes()) {
		t.Fatal("the second fill has no effect")
	}
}
'''),
]
