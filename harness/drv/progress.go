package drv

import (
	"encoding/json"
	"os"
	"sync/atomic"
)

var progressed, idle int64

// progress tells the watchdog that a request begins.
func progress() { atomic.AddInt64(&progressed, 1) }

var curTrace *Trace
var curEvent *Event
var curOut interface {
	write(*Trace)
	close()
	flush()
}

// begin notes the event that is about to happen.
func begin(t *Trace, e *Event) {
	curTrace, curEvent = t, e
	progress()
	if p := os.Getenv("DRV_NOTE"); p != "" {
		// the process is known to die: leave the history up to here behind
		c := *t
		c.Ev = append(append([]Event(nil), t.Ev...), pending("crash"))
		b, _ := json.Marshal(map[string]interface{}{"full": &c, "tlc": json.RawMessage(c.TLC())})
		_ = os.WriteFile(p, append(b, '\n'), 0o644)
		if curOut != nil {
			curOut.flush()
		}
	}
}

// pending is the event in progress, ended in the given way.
func pending(kind string) Event {
	e := *curEvent
	e.R = lose(e.Q, e.Alt.Body)
	e.O = NullO()
	e.O.Kind = kind
	return e
}

// dumpPending writes the trace whose last event never came back.
func dumpPending(kind string) {
	if curTrace == nil || curOut == nil {
		return
	}
	curTrace.Ev = append(curTrace.Ev, pending(kind))
	curOut.write(curTrace)
	curOut.close()
}
