HEAD = '''package gem

import (
	"testing"
	"time"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

func clockReply(t *testing.T, g *GemHandler, text string) int {
	t.Helper()
	reply, err := g.onS2F31(ast.NewDataMessage("", 2, 31, 1, "H->E", ast.NewASCIINode(text)))
	if err != nil {
		t.Fatal(err)
	}
	body, err := reply.Get()
	if err != nil {
		t.Fatal(err)
	}
	return body.Values().([]int)[0]
}
'''
P = [
dict(id="C64-normalised-zone", property="C64", pkg="gem",
  needs="a time provider that returns the time in the equipment's own zone, other than UTC",
  breaks="S2F18 tells the UTC reading of the provider's time instead of the equipment's",
  edits=[("gem/clock.go", """	t := c.GetTime()
	// Format: YYYYMMDDhhmmss00
	return t.Format("20060102150405") + "00\"""", """	t := c.GetTime()
	// Format: YYYYMMDDhhmmss00; times that are set are read as UTC, too
	if t.Location() != time.Local {
		t = t.UTC()
	}
	return t.Format("20060102150405") + "00\"""")],
  test=HEAD + '''
func TestDemoZone(t *testing.T) {
	g := &GemHandler{clockManager: NewClockManager()}
	g.SetTimeProvider(func() time.Time {
		return time.Date(2024, 5, 6, 7, 8, 9, 0, time.FixedZone("fab", 8*3600))
	})
	if got := g.GetEquipmentTime(); got[:14] != "20240506070809" {
		t.Fatal(got)
	}
	_ = clockReply
}
'''),
dict(id="C64-centiseconds-parsed", property="C64", pkg="gem",
  needs="an S2F31 whose last two digits are not 00, or a text of 14 characters",
  breaks="the last two digits are read as part of the layout's literal: the request is refused although the time in it is valid",
  edits=[("gem/clock.go", """	// Parse first 14 characters (ignore centiseconds)
	return time.Parse("20060102150405", timeStr[:14])""", """	// Parse up to 16 characters (centiseconds are always 00)
	if len(timeStr) < 16 {
		return time.Parse("20060102150405", timeStr[:14])
	}
	return time.Parse("2006010215040500", timeStr[:16])""")],
  test=HEAD + '''
func TestDemoCentiseconds(t *testing.T) {
	g := &GemHandler{clockManager: NewClockManager()}
	n := 0
	g.SetClockSyncHandler(func(time.Time) (byte, error) { n++; return 0, nil })
	if code := clockReply(t, g, "2024050607080942"); code != 0 || n != 1 {
		t.Fatal(code, n)
	}
}
'''),
dict(id="C64-handler-kept", property="C64", pkg="gem",
  needs="an application that withdraws its handler with SetClockSyncHandler(nil)",
  breaks="the old handler stays in use: a request to set the clock is still accepted",
  edits=[("gem/clock.go", """	c.mu.Lock()
	defer c.mu.Unlock()
	c.clockSyncHandler = handler
}""", """	if handler == nil {
		// nothing to install; S2F31 is rejected without a handler
		return
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.clockSyncHandler = handler
}""")],
  test=HEAD + '''
func TestDemoHandlerWithdrawn(t *testing.T) {
	g := &GemHandler{clockManager: NewClockManager()}
	n := 0
	g.SetClockSyncHandler(func(time.Time) (byte, error) { n++; return 0, nil })
	g.SetClockSyncHandler(nil)
	if code := clockReply(t, g, "2024050607080900"); code == 0 || n != 0 {
		t.Fatal(code, n)
	}
}
'''),
dict(id="C64-code-range", property="C64", pkg="gem",
  needs="a clock synchronization handler that returns an error together with the code 0",
  breaks="the handler's error is ignored when its code says accepted: the host is told that the time was set",
  edits=[("gem/clock.go", """	if err != nil {
		// Handler error, return "not allowed"
		return 1
	}

	return tiack""", """	if err != nil && tiack > 63 {
		// Handler error without a valid code, return "not allowed"
		return 1
	}

	return tiack""")],
  test=HEAD + '''
func TestDemoHandlerError(t *testing.T) {
	g := &GemHandler{clockManager: NewClockManager()}
	g.SetClockSyncHandler(func(time.Time) (byte, error) { return 0, errors.New("no") })
	if code := clockReply(t, g, "2024050607080900"); code == 0 {
		t.Fatal(code)
	}
}
'''.replace('x','x')),
]
P[3]["test"] = P[3]["test"].replace('	"testing"\n	"time"', '	"errors"\n	"testing"\n	"time"')
