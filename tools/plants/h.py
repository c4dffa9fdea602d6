IMPORTS = '''
package gem

import (
	"testing"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

var _ ast.ItemNode

func demoEquipment(t *testing.T) *GemHandler {
	g, err := NewGemHandler(Options{Protocol: hsms.NewHsmsProtocol("127.0.0.1", 1, false, 1, "x"), DeviceType: DeviceEquipment})
	if err != nil {
		t.Fatal(err)
	}
	return g
}

func demoAck(t *testing.T, m *ast.DataMessage, err error) int {
	if err != nil {
		t.Fatal(err)
	}
	n, err := m.Get()
	if err != nil {
		t.Fatal(err)
	}
	if l, ok := n.(*ast.ListNode); ok {
		n, err = l.Get(0)
		if err != nil {
			t.Fatal(err)
		}
	}
	return n.(*ast.BinaryNode).Values().([]int)[0]
}

func demoMsg(s, f int, body ast.ItemNode) *ast.DataMessage {
	return ast.NewDataMessage("", s, f, 1, "H->E", body)
}

func demoU(v int) ast.ItemNode { return ast.NewUintNode(4, v) }
'''
P = [
dict(id="c26-disabled-alarm-not-recorded", property="C26", pkg="gem",
 needs="an alarm that is disabled, raised while disabled, and listed afterwards", breaks="raising a disabled alarm no longer records that it is set",
 edits=[("gem/alarm.go", """	alarm.Set = set
	g.alarms[alarmID] = alarm
	enabled := alarm.Enabled
""", """	enabled := alarm.Enabled
	if enabled {
		alarm.Set = set
		g.alarms[alarmID] = alarm
	}
""")],
 test=IMPORTS + '''
func TestDemoAlarm(t *testing.T) {
	g := demoEquipment(t)
	g.enabled.Store(true)
	g.RegisterAlarm(Alarm{ID: 7, Text: "x"})
	g.onS5F3(demoMsg(5, 3, ast.NewListNode(ast.NewBinaryNode(0), ast.NewListNode(demoU(7)))))
	g.alarmMu.Lock()
	if a := g.alarms[7]; a.Enabled {
		t.Fatal("still enabled")
	}
	g.alarmMu.Unlock()
	g.setCommunicationState(CommunicationStateCommunicating)
	if err := g.RaiseAlarm(7, true); err != nil {
		t.Skip(err)
	}
	if a, _ := g.lookupAlarm(7); !a.Set {
		t.Fatal("the alarm was raised but is not listed as set")
	}
}
'''),
dict(id="c33-valueless-vid-left-out", property="C33", pkg="gem",
 needs="a report over a variable whose provider fails or was never given a value", breaks="the report has one value fewer than variables, so the host reads every later value as another variable's",
 edits=[("gem/collection_event_handlers.go", """		if node := g.resolveVIDValue(vidKey); node != nil {
			values = append(values, node)
		} else {
			values = append(values, ast.NewEmptyItemNode())
		}
""", """		node := g.resolveVIDValue(vidKey)
		if node == nil || node.Size() == 0 {
			continue
		}
		values = append(values, node)
""")],
 test=IMPORTS + '''
func TestDemoReport(t *testing.T) {
	g := demoEquipment(t)
	a, _ := NewDataVariable(1, "a")
	b, err := NewDataVariable(2, "b", WithDataValue(ast.NewUintNode(4, 9)))
	if err != nil {
		t.Fatal(err)
	}
	g.RegisterDataVariable(a)
	g.RegisterDataVariable(b)
	ce, _ := NewCollectionEvent(5, "e")
	g.RegisterCollectionEvent(ce)
	m, err := g.onS2F33(demoMsg(2, 33, ast.NewListNode(demoU(1), ast.NewListNode(ast.NewListNode(demoU(3), ast.NewListNode(demoU(1), demoU(2)))))))
	if demoAck(t, m, err) != 0 {
		t.Fatal("S2F33 refused")
	}
	m, err = g.onS2F35(demoMsg(2, 35, ast.NewListNode(demoU(1), ast.NewListNode(ast.NewListNode(demoU(5), ast.NewListNode(demoU(3)))))))
	if demoAck(t, m, err) != 0 {
		t.Fatal("S2F35 refused")
	}
	nodes, _, _, err := g.buildCollectionEventPayload("N:5")
	if err != nil || len(nodes) != 1 {
		t.Fatal(nodes, err)
	}
	v, err := nodes[0].(*ast.ListNode).Get(1)
	if err != nil {
		t.Fatal(err)
	}
	if v.Size() != 2 {
		t.Fatal(v.Size(), "values for two variables")
	}
}
'''),
dict(id="c33-disabled-link-keeps-report", property="C33", pkg="gem",
 needs="an event linked to two reports and then disabled, one of the reports deleted and defined again, and the event enabled", breaks="deleting a report leaves it linked to events that are disabled",
 edits=[("gem/collection_event_handlers.go", """		link.removeReport(reportKey)
		if len(link.reports) == 0 {
			delete(g.eventLinks, ceKey)
		}
""", """		if !link.enabled {
			continue
		}
		link.removeReport(reportKey)
		if len(link.reports) == 0 {
			delete(g.eventLinks, ceKey)
		}
""")],
 test=IMPORTS + '''
func TestDemoLink(t *testing.T) {
	g := demoEquipment(t)
	b, err := NewDataVariable(2, "b", WithDataValue(ast.NewUintNode(4, 9)))
	if err != nil {
		t.Fatal(err)
	}
	g.RegisterDataVariable(b)
	ce, _ := NewCollectionEvent(5, "e")
	g.RegisterCollectionEvent(ce)
	def := func(id int, vids ...interface{}) {
		m, err := g.onS2F33(demoMsg(2, 33, ast.NewListNode(demoU(1), ast.NewListNode(ast.NewListNode(demoU(id), ast.NewListNode(vids...))))))
		if demoAck(t, m, err) != 0 {
			t.Fatal("S2F33 refused")
		}
	}
	def(3, demoU(2))
	def(4, demoU(2))
	m, err := g.onS2F35(demoMsg(2, 35, ast.NewListNode(demoU(1), ast.NewListNode(ast.NewListNode(demoU(5), ast.NewListNode(demoU(3), demoU(4)))))))
	if demoAck(t, m, err) != 0 {
		t.Fatal("S2F35 refused")
	}
	m, err = g.onS2F37(demoMsg(2, 37, ast.NewListNode(ast.NewBooleanNode(false), ast.NewListNode(demoU(5)))))
	if demoAck(t, m, err) != 0 {
		t.Fatal("S2F37 refused")
	}
	def(3)
	g.reportMu.Lock()
	defer g.reportMu.Unlock()
	for _, r := range g.eventLinks["N:5"].reports {
		if r == "N:3" {
			t.Fatal("the deleted report is still linked")
		}
	}
}
'''),
dict(id="c34-bad-pair-skipped", property="C34", pkg="gem",
 needs="an S2F15 whose second entry is not an (ECID, value) pair", breaks="the malformed pair is left out, the others are applied and the request is accepted",
 edits=[("gem/status_equipment_handlers.go", """		if !ok || entryList.Size() < 2 {
			updates = append(updates, equipmentConstantUpdate{ok: false})
			continue
		}

		idNode""", """		if !ok || entryList.Size() < 2 {
			if len(updates) == 0 {
				updates = append(updates, equipmentConstantUpdate{ok: false})
			}
			continue
		}

		idNode""")],
 test=IMPORTS + '''
func TestDemoConstant(t *testing.T) {
	g := demoEquipment(t)
	c, err := NewEquipmentConstant(1, "c", ast.NewUintNode(4, 1))
	if err != nil {
		t.Fatal(err)
	}
	g.RegisterEquipmentConstant(c)
	m, err := g.onS2F15(demoMsg(2, 15, ast.NewListNode(ast.NewListNode(demoU(1), demoU(2)), ast.NewListNode(demoU(1)))))
	if demoAck(t, m, err) == 0 {
		t.Fatal("a request with a malformed pair was accepted")
	}
}
'''),
dict(id="c35-error-with-parameters-accepted", property="C35", pkg="gem",
 needs="a command handler that fails after it has recorded parameter acknowledgements", breaks="the failed command is answered with HCACK 0",
 edits=[("gem/handler.go", """		if result.HCACK == HCACKAcknowledge {
			result.HCACK = HCACKCannotPerformNow""", """		if result.HCACK == HCACKAcknowledge && len(result.ParameterAcks) == 0 {
			result.HCACK = HCACKCannotPerformNow""")],
 test=IMPORTS + '''
type demoErr struct{}

func (demoErr) Error() string { return "failed" }

func TestDemoCommand(t *testing.T) {
	g := demoEquipment(t)
	g.SetRemoteCommandHandler(func(RemoteCommandRequest) (RemoteCommandResult, error) {
		return RemoteCommandResult{ParameterAcks: []RemoteCommandParameterAck{{Name: "P", Ack: CPACKValueIllegal}}}, demoErr{}
	})
	m, err := g.onS2F41(demoMsg(2, 41, ast.NewListNode(ast.NewASCIINode("GO"), ast.NewListNode())))
	if demoAck(t, m, err) == 0 {
		t.Fatal("a failed command was acknowledged")
	}
}
'''),
dict(id="c36-fallback-on-refusal", property="C36", pkg="gem",
 needs="a request handler that refuses a program which is also in the local store", breaks="the refused program is handed out all the same",
 edits=[("gem/process_program_handlers.go", """		body, ack = requestHandler(ppidInfo.raw)
	} else {
		if program, ok := g.processStore.get(ppidInfo.key); ok {
			body = program.Body
		} else {
			ack = 1
		}
	}
""", """		body, ack = requestHandler(ppidInfo.raw)
	}
	if requestHandler == nil || ack != 0 {
		if program, ok := g.processStore.get(ppidInfo.key); ok {
			body, ack = program.Body, 0
		} else if requestHandler == nil {
			ack = 1
		}
	}
""")],
 test=IMPORTS + '''
func TestDemoProgram(t *testing.T) {
	g := demoEquipment(t)
	if err := g.RegisterProcessProgram("P", "secret"); err != nil {
		t.Fatal(err)
	}
	g.SetProcessProgramRequestHandler(func(interface{}) (string, int) { return "", 2 })
	m, err := g.onS7F5(demoMsg(7, 5, ast.NewASCIINode("P")))
	if err != nil {
		t.Fatal(err)
	}
	n, err := m.Get(1)
	if err != nil {
		t.Fatal(err)
	}
	if s, _ := n.Values().(string); s == "secret" {
		t.Fatal("a refused program was sent")
	}
}
'''),
dict(id="c36-empty-upload-ignored", property="C36", pkg="gem",
 needs="a program that is stored, then uploaded again with an empty body", breaks="the upload is acknowledged but the old body stays",
 edits=[("gem/process_programs.go", """	s.mu.Lock()
	s.items[pp.idKey()] = pp
	s.mu.Unlock()
""", """	s.mu.Lock()
	if _, known := s.items[pp.idKey()]; !known || pp.Body != "" {
		s.items[pp.idKey()] = pp
	}
	s.mu.Unlock()
""")],
 test=IMPORTS + '''
func TestDemoUpload(t *testing.T) {
	g := demoEquipment(t)
	g.RegisterProcessProgram("P", "old")
	m, err := g.onS7F3(demoMsg(7, 3, ast.NewListNode(ast.NewASCIINode("P"), ast.NewASCIINode(""))))
	if demoAck(t, m, err) != 0 {
		t.Skip("refused")
	}
	if p, err := g.processProgram("P"); err != nil || p.Body != "" {
		t.Fatal("an acknowledged upload was not stored")
	}
}
'''),
dict(id="c33-linked-event-unchecked", property="C33", pkg="gem",
 needs="an S2F35 that adds a report to an event which is already linked, naming a report that was never defined", breaks="the link to the undefined report is accepted with LRACK 0",
 edits=[("gem/collection_event_handlers.go", """			if _, ok := g.reports[rpt.key]; !ok {
				return LRACKRPTIDDoesNotExist
			}
			if existing, ok := g.eventLinks[link.ceid.key]; ok {
""", """			existing, ok := g.eventLinks[link.ceid.key]
			if !ok {
				if _, ok := g.reports[rpt.key]; !ok {
					return LRACKRPTIDDoesNotExist
				}
			} else {
""")],
 test=IMPORTS + '''
func TestDemoLinks(t *testing.T) {
	g := demoEquipment(t)
	b, err := NewDataVariable(2, "b", WithDataValue(ast.NewUintNode(4, 9)))
	if err != nil {
		t.Fatal(err)
	}
	g.RegisterDataVariable(b)
	ce, _ := NewCollectionEvent(5, "e")
	g.RegisterCollectionEvent(ce)
	m, err := g.onS2F33(demoMsg(2, 33, ast.NewListNode(demoU(1), ast.NewListNode(ast.NewListNode(demoU(3), ast.NewListNode(demoU(2)))))))
	if demoAck(t, m, err) != 0 {
		t.Fatal("S2F33 refused")
	}
	link := func(rpt int) int {
		m, err := g.onS2F35(demoMsg(2, 35, ast.NewListNode(demoU(1), ast.NewListNode(ast.NewListNode(demoU(5), ast.NewListNode(demoU(rpt)))))))
		return demoAck(t, m, err)
	}
	if link(3) != 0 {
		t.Fatal("refused")
	}
	if link(99) == 0 {
		t.Fatal("a link to an undefined report was accepted")
	}
}
'''),
dict(id="c21-unlink-while-checking", property="C21", pkg="gem",
 needs="an S2F35 whose first entry unlinks an event and whose second names an unknown event", breaks="the request is refused but the first event has been unlinked",
 edits=[("gem/collection_event_handlers.go", """			return LRACKCEIDDoesNotExist
		}
		for _, rpt""", """			return LRACKCEIDDoesNotExist
		}
		if len(link.rptids) == 0 {
			delete(g.eventLinks, link.ceid.key)
			continue
		}
		for _, rpt""")],
 test=IMPORTS + '''
func TestDemoUnlink(t *testing.T) {
	g := demoEquipment(t)
	b, err := NewDataVariable(2, "b", WithDataValue(ast.NewUintNode(4, 9)))
	if err != nil {
		t.Fatal(err)
	}
	g.RegisterDataVariable(b)
	ce, _ := NewCollectionEvent(5, "e")
	g.RegisterCollectionEvent(ce)
	m, err := g.onS2F33(demoMsg(2, 33, ast.NewListNode(demoU(1), ast.NewListNode(ast.NewListNode(demoU(3), ast.NewListNode(demoU(2)))))))
	if demoAck(t, m, err) != 0 {
		t.Fatal("S2F33 refused")
	}
	m, err = g.onS2F35(demoMsg(2, 35, ast.NewListNode(demoU(1), ast.NewListNode(ast.NewListNode(demoU(5), ast.NewListNode(demoU(3)))))))
	if demoAck(t, m, err) != 0 {
		t.Fatal("S2F35 refused")
	}
	m, err = g.onS2F35(demoMsg(2, 35, ast.NewListNode(demoU(1), ast.NewListNode(ast.NewListNode(demoU(5), ast.NewListNode()), ast.NewListNode(demoU(6), ast.NewListNode())))))
	if demoAck(t, m, err) == 0 {
		t.Fatal("accepted")
	}
	g.reportMu.Lock()
	defer g.reportMu.Unlock()
	if _, ok := g.eventLinks["N:5"]; !ok {
		t.Fatal("a refused request unlinked an event")
	}
}
'''),
]
