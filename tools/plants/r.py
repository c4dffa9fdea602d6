HEAD = '''package gem

import (
	"testing"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

func demoHost(t *testing.T) *GemHandler {
	t.Helper()
	p := hsms.NewHsmsProtocol("127.0.0.1", 1, true, 1, "demo")
	g, err := NewGemHandler(Options{Protocol: p, DeviceType: DeviceHost})
	if err != nil {
		t.Fatal(err)
	}
	return g
}

func demoItem(t *testing.T, n ast.ItemNode, path ...int) ast.ItemNode {
	t.Helper()
	for _, i := range path {
		l, ok := n.(*ast.ListNode)
		if !ok {
			t.Fatalf("%v is not a list", n)
		}
		var err error
		if n, err = l.Get(i); err != nil {
			t.Fatal(err)
		}
	}
	return n
}
'''
P = [
dict(id="C66-unlink-omitted", property="C66", pkg="gem",
  needs="a LinkEventReports call of several events of which one has no reports, which removes that event's links",
  breaks="the S2F35 does not mention the event: its old reports stay linked although the call succeeded",
  edits=[("gem/status_equipment_messages.go", """		rptNodes := make([]interface{}, 0, len(rptInfos))
		for _, rpt := range rptInfos {
			rptNodes = append(rptNodes, rpt.node)
		}
		items = append(items, ast.NewListNode(ceInfo.node, ast.NewListNode(rptNodes...)))
""", """		if len(rptInfos) == 0 && len(links) > 1 {
			continue // nothing to link
		}
		rptNodes := make([]interface{}, len(rptInfos))
		for i, rpt := range rptInfos {
			rptNodes[i] = rpt.node
		}
		items = append(items, ast.NewListNode(ceInfo.node, ast.NewListNode(rptNodes...)))
""")],
  test=HEAD + '''
func TestDemoUnlink(t *testing.T) {
	m, err := demoHost(t).buildS2F35([]EventReportLinkRequest{{CEID: 1, ReportIDs: []interface{}{10}}, {CEID: 2}})
	if err != nil {
		t.Fatal(err)
	}
	root, err := m.Get()
	if err != nil {
		t.Fatal(err)
	}
	if l := demoItem(t, root, 1).(*ast.ListNode); l.Size() != 2 {
		t.Fatal(m)
	}
}
'''),
dict(id="C66-repeated-ids-dropped", property="C66", pkg="gem",
  needs="a report definition that lists the same variable twice in a row",
  breaks="the S2F33 lists it once, so the report has fewer values than the host defined and reads",
  edits=[("gem/collection_events.go", """		result = append(result, info)
	}
	return result, nil
""", """		if n := len(result); n > 0 && result[n-1].key == info.key {
			continue
		}
		result = append(result, info)
	}
	return result, nil
""")],
  test=HEAD + '''
func TestDemoRepeated(t *testing.T) {
	m, err := demoHost(t).buildS2F33([]ReportDefinitionRequest{{ReportID: 1, VIDs: []interface{}{7, 7, 8}}})
	if err != nil {
		t.Fatal(err)
	}
	root, err := m.Get()
	if err != nil {
		t.Fatal(err)
	}
	if l := demoItem(t, root, 1, 0, 1).(*ast.ListNode); l.Size() != 3 {
		t.Fatal(m)
	}
}
'''),
dict(id="C66-values-buffer-shared", property="C66", pkg="gem",
  needs="an event report with two reports of which the later one has no more values than the first",
  breaks="the values of the first report are overwritten with those of the second: both reports share one buffer",
  edits=[("gem/collection_event_handlers.go", """	report.Reports = make([]ReportValue, 0, reportList.Size())
	for i := 0; i < reportList.Size(); i++ {
""", """	report.Reports = make([]ReportValue, 0, reportList.Size())
	var values []ast.ItemNode
	for i := 0; i < reportList.Size(); i++ {
"""), ("gem/collection_event_handlers.go", """		values := make([]ast.ItemNode, 0, valuesList.Size())
		for idx := 0; idx < valuesList.Size(); idx++ {
""", """		values = values[:0]
		for idx := 0; idx < valuesList.Size(); idx++ {
""")],
  test=HEAD + '''
func TestDemoShared(t *testing.T) {
	rpt := func(id int, v string) ast.ItemNode {
		return ast.NewListNode(ast.NewUintNode(4, id), ast.NewListNode(ast.NewASCIINode(v)))
	}
	r, err := parseEventReportMessage(ast.NewDataMessage("", 6, 11, 1, "H<-E", ast.NewListNode(
		ast.NewUintNode(4, 1), ast.NewUintNode(4, 2), ast.NewListNode(rpt(1, "first"), rpt(2, "second")))))
	if err != nil {
		t.Fatal(err)
	}
	if v := r.Reports[0].Values[0].Values(); v != "first" {
		t.Fatal(v)
	}
}
'''),
dict(id="C66-command-flag-as-number", property="C66", pkg="gem",
  needs="a remote command parameter whose value is a bool or a small unsigned number",
  breaks="an unsigned parameter below 2 is sent as a boolean item",
  edits=[("gem/remote_command.go", """	case uint8:
		return ast.NewUintNode(unsignedByteSize(uint64(v)), uint64(v)), nil
""", """	case uint8:
		if v < 2 {
			return ast.NewBooleanNode(v == 1), nil
		}
		return ast.NewUintNode(unsignedByteSize(uint64(v)), uint64(v)), nil
""")],
  test=HEAD + '''
func TestDemoFlag(t *testing.T) {
	m, err := demoHost(t).buildS2F41("GO", []RemoteCommandParameterValue{{Name: "N", Value: uint8(1)}})
	if err != nil {
		t.Fatal(err)
	}
	root, err := m.Get()
	if err != nil {
		t.Fatal(err)
	}
	if n := demoItem(t, root, 1, 0, 1); n.Type() != "u1" {
		t.Fatal(m)
	}
}
'''),
]
