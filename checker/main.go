package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// check is the decision procedure of one property.
type check struct {
	run     func(*Report)
	explain string
}

var checks = map[string]check{}

func register(id, explain string, run func(*Report)) { checks[id] = check{run, explain} }

func runOne(P *Program, base, id string, t0 time.Time) (status int) {
	r := newReport(P, id)
	c := checks[id]
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			r.findings["internal|panic"] = &Finding{Rule: "internal", Key: "internal|panic", Pos: "-", Msg: fmt.Sprint("the analysis could not be completed: ", e), Path: st}
			if os.Getenv("SC_DEBUG") != "" {
				fmt.Println(st)
			}
			status = r.Finish(base, c.explain, t0)
		}
	}()
	c.run(r)
	return r.Finish(base, c.explain, t0)
}

func main() {
	prop := flag.String("property", "", "property id, comma separated, or all")
	repo := flag.String("repo", "/repo", "source tree")
	base := flag.String("base", "", "directory for evidence and replay files")
	list := flag.Bool("list", false, "list the checks")
	flag.Parse()
	t0 := time.Now()
	debug.SetGCPercent(400)
	if *base == "" {
		exe, err := os.Executable()
		if err == nil {
			*base = filepath.Dir(filepath.Dir(exe))
		} else {
			*base = "."
		}
	}
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	if *list {
		fmt.Println(strings.Join(ids, "\n"))
		return
	}
	if *prop != "all" {
		ids = strings.Split(*prop, ",")
	}
	P, err := loadProgram(*repo)
	if err != nil {
		for _, id := range ids {
			r := newReport(nil, id)
			r.findings["load"] = &Finding{Rule: "load", Key: "load", Pos: "-", Msg: err.Error()}
			r.Finish(*base, "the source could not be loaded", t0)
		}
		os.Exit(1)
	}
	status := 0
	for _, id := range ids {
		if _, ok := checks[id]; !ok {
			r := newReport(nil, id)
			r.findings["unknown"] = &Finding{Rule: "internal", Key: "unknown", Pos: "-", Msg: "no such check"}
			r.Finish(*base, "", t0)
			status = 1
			continue
		}
		if s := runOne(P, *base, id, t0); s != 0 {
			status = 1
		}
	}
	os.Exit(status)
}
