package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Channels within one goroutine: an operation that would block cannot be
// followed.

type xChan struct {
	buf    []xv
	cap    int
	closed bool
	et     types.Type
}

func (c *xChan) ready() bool { return len(c.buf) > 0 || c.closed }

func (x *xrun) chanOf(v xv) *xChan {
	c, ok := v.(*xChan)
	if !ok {
		x.giveUp("a channel that is not known (%T)", v)
	}
	return c
}

func (x *xrun) recv(c *xChan) (xv, bool) {
	if len(c.buf) == 0 {
		return x.zero(c.et), false
	}
	e := c.buf[0]
	c.buf = c.buf[1:]
	return e, true
}

func (x *xrun) send(ch, v xv) {
	c := x.chanOf(ch)
	if c.closed {
		x.throw("send on closed channel")
	}
	if len(c.buf) >= c.cap {
		x.giveUp("a send that blocks")
	}
	c.buf = append(append([]xv{}, c.buf...), v)
}

func (x *xrun) selects(fr *xframe, i *ssa.Select) xv {
	var ready []int
	for k, s := range i.States {
		ch := x.get(fr, s.Chan)
		if _, ok := ch.(xNil); ok {
			continue
		}
		c := x.chanOf(ch)
		if s.Dir == types.RecvOnly && c.ready() || s.Dir == types.SendOnly && (c.closed || len(c.buf) < c.cap) {
			ready = append(ready, k)
		}
	}
	at := -1
	if len(ready) > 0 {
		at = ready[0]
		if len(ready) > 1 {
			at = ready[x.choose(len(ready))]
		}
	} else if i.Blocking {
		x.giveUp("a select that blocks")
	}
	out := xTuple{xint(int64(at)), xbool(false)}
	for k, s := range i.States {
		if s.Dir != types.RecvOnly {
			if k == at {
				x.send(x.get(fr, s.Chan), copyVal(x.get(fr, s.Send)))
			}
			continue
		}
		if k != at {
			out = append(out, x.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			continue
		}
		e, ok := x.recv(x.chanOf(x.get(fr, s.Chan)))
		out[1] = xbool(ok)
		out = append(out, e)
	}
	return out
}
