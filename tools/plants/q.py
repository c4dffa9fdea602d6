HEAD = '''package gem

import (
	"errors"
	"testing"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

var _ = errors.New

func demoEquipment(t *testing.T) *GemHandler {
	t.Helper()
	p := hsms.NewHsmsProtocol("127.0.0.1", 1, false, 1, "demo")
	g, err := NewGemHandler(Options{Protocol: p, DeviceType: DeviceEquipment})
	if err != nil {
		t.Fatal(err)
	}
	return g
}

func demoVariable(t *testing.T, g *GemHandler, id int, name string, opts ...StatusVariableOption) {
	t.Helper()
	v, err := NewStatusVariable(id, name, "mm", opts...)
	if err != nil {
		t.Fatal(err)
	}
	if err := g.RegisterStatusVariable(v); err != nil {
		t.Fatal(err)
	}
}

func demoList(t *testing.T, reply *ast.DataMessage, err error) *ast.ListNode {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
	body, err := reply.Get()
	if err != nil {
		t.Fatal(err)
	}
	return body.(*ast.ListNode)
}

func demoMessage(s, f int, items ...interface{}) *ast.DataMessage {
	return ast.NewDataMessage("", s, f, 1, "H->E", ast.NewListNode(items...))
}
'''
P = [
dict(id="C65-cached-namelist", property="C65", pkg="gem",
  needs="a status variable that is registered after the first complete namelist was asked for",
  breaks="the complete namelist is built once and kept: variables registered later are missing from it",
  edits=[("gem/status_equipment_handlers.go", """	entries := g.resolveStatusInfo(requests)
""", """	// Names and units never change; hosts ask for the whole list often.
	g.statusMu.RLock()
	entries := g.namelist
	g.statusMu.RUnlock()
	if len(requests) > 0 || entries == nil {
		entries = g.resolveStatusInfo(requests)
	}
	if len(requests) == 0 {
		g.statusMu.Lock()
		g.namelist = entries
		g.statusMu.Unlock()
	}
"""), ("gem/handler.go", """	statusOrder""", """	namelist    []ast.ItemNode // of all variables
	statusOrder""")],
  test=HEAD + '''
func TestDemoNamelist(t *testing.T) {
	g := demoEquipment(t)
	demoVariable(t, g, 1, "one")
	reply, err := g.onS1F11(demoMessage(1, 11))
	if demoList(t, reply, err).Size() != 1 {
		t.Fatal("one variable")
	}
	demoVariable(t, g, 2, "two")
	reply, err = g.onS1F11(demoMessage(1, 11))
	if n := demoList(t, reply, err).Size(); n != 2 {
		t.Fatal(n)
	}
}
'''),
dict(id="C65-failed-provider-drops", property="C65", pkg="gem",
  needs="a value provider that fails, for a variable that is requested before others",
  breaks="a variable whose provider fails has no item in S1F4: the values of the following ones move up",
  edits=[("gem/status_equipment_messages.go", """		if value == nil {
			nodes = append(nodes, ast.NewEmptyItemNode())
		} else {
			nodes = append(nodes, value)
		}
	}
	body := ast.NewListNode(nodes...)
	return ast.NewDataMessage("SelectedEquipmentStatusData\"""", """		if value == nil {
			nodes = append(nodes, ast.NewEmptyItemNode())
		} else if value.Type() != "empty" { // nothing to report
			nodes = append(nodes, value)
		}
	}
	body := ast.NewListNode(nodes...)
	return ast.NewDataMessage("SelectedEquipmentStatusData\"""")],
  test=HEAD + '''
func TestDemoFailing(t *testing.T) {
	g := demoEquipment(t)
	demoVariable(t, g, 1, "one", WithStatusValueProvider(func() (ast.ItemNode, error) { return nil, errors.New("sensor") }))
	demoVariable(t, g, 2, "two", WithStatusValue(ast.NewUintNode(2, 77)))
	reply, err := g.onS1F3(demoMessage(1, 3, ast.NewUintNode(1, 1), ast.NewUintNode(1, 2)))
	l := demoList(t, reply, err)
	if l.Size() != 2 {
		t.Fatal(l)
	}
	if v, _ := l.Get(1); v.Type() != "u2" {
		t.Fatal(l)
	}
}
'''),
dict(id="C65-limit-of-another", property="C65", pkg="gem",
  needs="an equipment constant with a lower and no upper limit",
  breaks="S2F30 tells the lower limit as the upper one of a constant that has no upper limit",
  edits=[("gem/status_equipment_handlers.go", """	maxNode := constant.MaxValue
	if maxNode == nil {
		maxNode = ast.NewEmptyItemNode()
	}""", """	maxNode := constant.MaxValue
	if maxNode == nil {
		maxNode = minNode // same format
	}""")],
  test=HEAD + '''
func TestDemoLimit(t *testing.T) {
	g := demoEquipment(t)
	c, err := NewEquipmentConstant(1, "speed", ast.NewUintNode(2, 5))
	if err != nil {
		t.Fatal(err)
	}
	c.MinValue = ast.NewUintNode(2, 1)
	if err := g.RegisterEquipmentConstant(c); err != nil {
		t.Fatal(err)
	}
	reply, err := g.onS2F29(demoMessage(2, 29))
	e, err2 := demoList(t, reply, err).Get(0)
	if err2 != nil {
		t.Fatal(err2)
	}
	if v, _ := e.(*ast.ListNode).Get(3); v.Type() == "u2" {
		t.Fatal(e)
	}
}
'''),
dict(id="C65-host-skips-unnamed", property="C65", pkg="gem",
  needs="a variable without name and unit, or a request that names an unknown one, in the namelist",
  breaks="the host's result has fewer entries than the reply: the entry of the unnamed variable is missing",
  edits=[("gem/status_equipment_client.go", """		infos = append(infos, StatusVariableInfo{ID: info.raw, Name: name, Unit: unit})
""", """		if name == "" && unit == "" {
			continue // not known to the equipment
		}
		infos = append(infos, StatusVariableInfo{ID: info.raw, Name: name, Unit: unit})
""")],
  test=HEAD + '''
func TestDemoUnnamed(t *testing.T) {
	entry := func(id int, name string) ast.ItemNode {
		return ast.NewListNode(ast.NewUintNode(4, id), ast.NewASCIINode(name), ast.NewASCIINode(""))
	}
	infos, err := parseStatusInfoResponse(ast.NewDataMessage("", 1, 12, 0, "H<-E", ast.NewListNode(entry(1, ""), entry(2, "two"))))
	if err != nil {
		t.Fatal(err)
	}
	if len(infos) != 2 {
		t.Fatal(infos)
	}
}
'''),
]
