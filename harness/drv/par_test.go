package drv

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"a.verif/h/rnd"
	"a.verif/h/vsync"
)

// Concurrent requests. A trace has a sequential part, one batch of overlapping
// requests and a sequential part again. The batch runs either under a schedule
// that is drawn at random (gated: one goroutine at a time, switching at locks,
// at every read of a request, of randomness, and at every write of an answer)
// or freely (to be compiled with the race detector).

// part is a request of the batch.
type part struct {
	gid   int64
	state int32 // 0 running, 1 at a gate, 2 done
	ready func() bool
	ch    chan struct{}
	runs  int
}

const (
	running = int32(iota)
	gated
	done
)

// sched hands out the right to run.
type sched struct {
	mu    sync.Mutex
	parts []*part
	byGid map[int64]*part
	r     *rand.Rand
	stick float64
	last  *part
	stuck []int
	// script says who runs for how many gates; what it leaves open is done in
	// the order of the requests
	script   [][2]int
	scripted bool
	gates    int // most gates that one request passed
}

func gid() int64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	id, _ := strconv.ParseInt(f[1], 10, 64)
	return id
}

func (s *sched) join(p *part) {
	p.gid = gid()
	s.mu.Lock()
	s.byGid[p.gid] = p
	s.mu.Unlock()
}

// gate parks the calling request until it is its turn.
func (s *sched) gate(ready func() bool) {
	s.mu.Lock()
	p := s.byGid[gid()]
	s.mu.Unlock()
	if p == nil {
		return
	}
	p.ready = ready
	atomic.StoreInt32(&p.state, gated)
	<-p.ch
}

func yes() bool { return true }

func nap(us int64) {
	ts := syscall.Timespec{Nsec: us * 1000}
	_ = syscall.Nanosleep(&ts, nil)
}

// states reads what the goroutines of the batch are doing.
func (s *sched) states() map[int64]string {
	buf := make([]byte, 1<<16)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	m := map[int64]string{}
	for _, l := range strings.Split(string(buf), "\n") {
		if !strings.HasPrefix(l, "goroutine ") {
			continue
		}
		f := strings.SplitN(l, " ", 3)
		id, err := strconv.ParseInt(f[1], 10, 64)
		if err != nil || len(f) < 3 {
			continue
		}
		st := strings.TrimPrefix(f[2], "[")
		if i := strings.IndexAny(st, ",(]"); i >= 0 {
			st = st[:i]
		}
		m[id] = strings.TrimSpace(st)
	}
	return m
}

func isBlocked(st string) bool {
	switch {
	case strings.HasPrefix(st, "chan "), strings.HasPrefix(st, "select"), strings.HasPrefix(st, "sync."), strings.HasPrefix(st, "semacquire"):
		return true
	}
	return false
}

// settle waits until no request runs on its own; it tells whether all are done
// and whether some only sleep.
func (s *sched) settle() (allDone, asleep bool) {
	for spin := 0; ; spin++ {
		open, ndone := 0, 0
		for _, p := range s.parts {
			switch atomic.LoadInt32(&p.state) {
			case running:
				open++
			case done:
				ndone++
			}
		}
		if open == 0 {
			return ndone == len(s.parts), false
		}
		if spin < 200 {
			runtime.Gosched()
			continue
		}
		nap(20)
		if spin%20 != 0 {
			continue
		}
		st := s.states()
		all := true
		asleep = false
		for _, p := range s.parts {
			if atomic.LoadInt32(&p.state) != running {
				continue
			}
			x := st[p.gid]
			if x == "sleep" {
				asleep = true
			} else if !isBlocked(x) {
				all = false
			}
		}
		if all {
			// nothing may have happened in between
			again := 0
			for _, p := range s.parts {
				if atomic.LoadInt32(&p.state) == running {
					again++
				}
			}
			if again == open {
				return false, asleep
			}
		}
	}
}

// run schedules until all requests are done; false means deadlock.
func (s *sched) run() bool {
	naps, dead := 0, 0
	for {
		all, asleep := s.settle()
		if all {
			return true
		}
		var can []*part
		lastCan := false
		for _, p := range s.parts {
			if atomic.LoadInt32(&p.state) == gated && p.ready() {
				can = append(can, p)
				if p == s.last {
					lastCan = true
				}
			}
		}
		if len(can) == 0 {
			if asleep && naps < 3000 {
				naps++
				time.Sleep(time.Millisecond)
				continue
			}
			if dead < 5 {
				dead++
				nap(2000)
				continue
			}
			s.stuck = nil
			for i, p := range s.parts {
				if atomic.LoadInt32(&p.state) != done {
					s.stuck = append(s.stuck, i)
				}
			}
			return false
		}
		dead = 0
		var p *part
		if s.scripted {
			p = s.follow(can)
		} else {
			p = can[s.r.Intn(len(can))]
			if lastCan && s.r.Float64() < s.stick {
				p = s.last
			}
		}
		if p.runs++; p.runs > s.gates {
			s.gates = p.runs
		}
		s.last = p
		atomic.StoreInt32(&p.state, running)
		p.ch <- struct{}{}
	}
}

// follow picks the next request according to the script. A request that cannot
// go on loses the rest of its turn.
func (s *sched) follow(can []*part) *part {
	for len(s.script) > 0 {
		seg := &s.script[0]
		if seg[1] > 0 && seg[0] < len(s.parts) {
			for _, p := range can {
				if p == s.parts[seg[0]] {
					seg[1]--
					return p
				}
			}
		}
		s.script = s.script[1:]
	}
	for _, p := range can {
		if p == s.last {
			return p
		}
	}
	return can[0]
}

type served struct {
	rec      *recorder
	req      *request
	granted  bool
	panicked bool
	pv       interface{}
	from, to int64
}

// batch runs the events at once and fills in what was observed. The return
// value tells whether all of them came back.
func (w *world) batch(evs []*Event, free bool, tr *Trace) ([]*Event, bool) {
	n := len(evs)
	res := make([]served, n)
	s := &sched{byGid: map[int64]*part{}, r: rand.New(rand.NewSource(tr.SSeed)), stick: tr.Stick, scripted: tr.Script != nil}
	s.script = append(s.script, tr.Script...)
	for i, e := range evs {
		e.R = lose(e.Q, e.Alt.Body)
		res[i].req = w.concretize(&e.Q, &e.Alt)
		res[i].rec = newRecorder()
		s.parts = append(s.parts, &part{ch: make(chan struct{})})
	}
	var stamp int64
	if free {
		rnd.S.Free = true
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := range evs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				r := &res[i]
				r.panicked, r.pv, r.granted = w.serveQuiet(r.rec, r.req, &evs[i].Q)
			}(i)
		}
		close(start)
		wg.Wait()
		rnd.S.Free = false
	} else {
		g := func() { s.gate(yes) }
		vsync.Gate = s.gate
		rnd.S.Gate = g
		for i := range evs {
			res[i].rec.gate = g
			if b, ok := res[i].req.r.Body.(*chunkBody); ok {
				b.gate, b.once = g, s.scripted
			}
		}
		for i := range evs {
			go func(i int) {
				p, r := s.parts[i], &res[i]
				s.join(p)
				s.gate(yes)
				r.from = atomic.AddInt64(&stamp, 1)
				r.panicked, r.pv, r.granted = w.serve(r.rec, r.req, &evs[i].Q)
				r.to = atomic.AddInt64(&stamp, 1)
				atomic.StoreInt32(&p.state, done)
			}(i)
		}
		ok := s.run()
		vsync.Gate = nil
		rnd.S.Gate = nil
		if mostGates < s.gates {
			mostGates = s.gates
		}
		if !ok {
			return evs, false
		}
	}
	// what was answered, in the order the answers were complete
	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	if !free {
		for i := 1; i < n; i++ {
			for j := i; j > 0 && res[order[j]].to < res[order[j-1]].to; j-- {
				order[j], order[j-1] = order[j-1], order[j]
			}
		}
	}
	var out []*Event
	for _, i := range order {
		e, r := evs[i], &res[i]
		e.O = NullO()
		e.Par = true
		e.Pre = nil
		if !free {
			for _, j := range order {
				if res[j].to < r.from {
					e.Pre = append(e.Pre, evs[j].ID)
				}
			}
		}
		w.classifyResponse(e, r.rec, r.granted)
		e.O.Bytes = nil
		if r.panicked {
			e.O.Kind = "panic"
			e.Raw = fmt.Sprint(r.pv)
		}
		out = append(out, e)
	}
	for _, e := range out {
		w.note(e)
	}
	return out, true
}

// serveQuiet is serve without a trace in shared memory.
func (w *world) serveQuiet(rec *recorder, req *request, q *Q) (panicked bool, pv interface{}, granted bool) {
	defer func() {
		if v := recover(); v != nil {
			panicked, pv = true, v
		}
	}()
	if q.Op == "resource" {
		granted = w.srv.Authorize(rec, req.r, req.need)
	} else {
		w.srv.ServeHTTP(rec, req.r)
	}
	return
}

// ---------------------------------------------------------------------------
// choosing what overlaps

// clash draws a batch of requests that get in each other's way, at most max of
// them.
func (g *gen) clash(max int, crowded bool) []*Event {
	var l []*Event
	n := 2 + g.r.Intn(4)
	pickCred := func(kind, dead string) *cred {
		return g.cred(func(c *cred) bool {
			return c.kind == kind && (dead == "any" || c.dead == dead) && (c.exp >= g.w.now || g.chance(0.05))
		})
	}
	use := func(c *cred) *Event {
		switch c.kind {
		case "code":
			return g.exchange(c)
		case "refresh":
			if g.chance(0.6) {
				return g.refresh(c)
			}
		case "access":
			if g.chance(0.5) {
				e := g.newEvent("resource")
				e.Q.Tok = c.label
				e.Q.Need = g.subset(c.scope, 0.5)
				return e
			}
		}
		e := g.newEvent(g.pick("introspect", "revoke"))
		e.Q.Tok = c.label
		g.auth(&e.Q, c.client)
		e.Q.Hint = g.pick("", "", "access_token", "refresh_token")
		return e
	}
	kin := func(c *cred) []*cred {
		var r []*cred
		for _, d := range g.w.creds {
			if d.root != "" && (d.root == c.root || d.root == c.label) {
				r = append(r, d)
			}
		}
		return r
	}
	what := g.r.Intn(10)
	if crowded {
		what = []int{2, 2, 2, 0, 1, 5, 9}[g.r.Intn(7)]
	}
	switch what {
	case 0: // one code, many exchanges
		if c := pickCred("code", ""); c != nil {
			for i := 0; i < n; i++ {
				l = append(l, g.exchange(c))
			}
		}
	case 1: // one refresh token, many refreshes
		if c := pickCred("refresh", ""); c != nil {
			for i := 0; i < n; i++ {
				l = append(l, g.refresh(c))
			}
		}
	case 2, 3: // a replayed code and its descendants
		if c := pickCred("code", "used"); c != nil {
			l = append(l, g.exchange(c))
			if g.chance(0.3) {
				l = append(l, g.exchange(c))
			}
			ks := kin(c)
			for i := 1; i < n && len(ks) > 0; i++ {
				d := ks[g.r.Intn(len(ks))]
				if g.chance(0.5) {
					for _, x := range ks {
						if x.kind == "refresh" && x.dead == "" {
							d = x
						}
					}
				}
				l = append(l, use(d))
			}
		}
	case 4: // a code exchanged and the family it then has
		if c := pickCred("code", ""); c != nil {
			l = append(l, g.exchange(c), g.exchange(c))
			for i := 2; i < n; i++ {
				l = append(l, g.intent(g.pick("password", "authcode", "cc")))
			}
		}
	case 5: // revocation against use
		if c := pickCred(g.pick("access", "refresh"), ""); c != nil {
			e := g.newEvent("revoke")
			e.Q.Tok = c.label
			g.auth(&e.Q, c.client)
			e.Q.Hint = g.pick("", "access_token", "refresh_token")
			l = append(l, e)
			for i := 1; i < n; i++ {
				l = append(l, use(c))
			}
		}
	case 6: // issuing all at once
		for i := 0; i < n; i++ {
			l = append(l, g.intent(g.pick("password", "authcode", "cc", "implicit")))
		}
	}
	if g.chance(0.15) {
		// several try something that is dead
		if c := g.cred(func(c *cred) bool { return c.dead != "" || c.exp < g.w.now }); c != nil {
			l = nil
			for i := 0; i < n; i++ {
				if c.kind == "access" && g.chance(0.6) {
					e := g.newEvent("resource")
					e.Q.Tok = c.label
					l = append(l, e)
				} else {
					l = append(l, use(c))
				}
			}
		}
	}
	for len(l) < 2 || len(l) < 5 && g.chance(0.25) {
		e := g.intent(g.pick("authcode", "implicit", "password", "cc", "exchange", "exchange", "replay", "refresh", "refresh", "introspect",
			"revoke", "resource", "resource", "other", "authget"))
		if e.Q.Op == "tick" || e.Q.Op == "seed" || e.Q.Op == "conf" {
			continue
		}
		if g.chance(0.15) {
			g.spoil(e)
		}
		l = append(l, e)
	}
	if len(l) > max {
		l = l[:max]
	}
	g.r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	// bodies that arrive in pieces
	for _, e := range l {
		if g.chance(0.5) && (max > 3 || g.chance(0.2)) {
			e.Alt.Body = pieces(e.Alt.Body)
		}
	}
	return l
}

func pieces(b string) string {
	if b == "" {
		return "pieces"
	}
	return b
}

func concProfile() *profile {
	p := mix()
	p.name = "C17"
	p.length = 8
	p.pMut = 0.12
	p.pSnap = 0.15
	p.noShort = true
	p.w = weights{"authcode": 6, "implicit": 2, "password": 4, "cc": 2, "exchange": 7, "replay": 1, "refresh": 5, "revoke": 1, "resource": 1, "tick": 1}
	return p
}

// TestConc records histories with overlapping requests.
func TestConc(t *testing.T) {
	if os.Getenv("DRV_MODE") != "conc" {
		t.Skip()
	}
	seed := int64(envInt("DRV_SEED", 1))
	n, first := envInt("DRV_N", 10), envInt("DRV_FIRST", 1)
	free := os.Getenv("DRV_FREE") != ""
	p := concProfile()
	o := newOut()
	curOut = o
	if f := os.Getenv("DRV_SCRIPTS"); f != "" {
		scripts(t, f, seed, first, n, p, o)
		o.close()
		return
	}
	for i := first; i < first+n; i++ {
		tr, r := newTrace(i, seed*1000003+int64(i), p)
		tr.Par = true
		ok := true
		synctest.Test(t, func(t *testing.T) {
			ok = concurrent(tr, r, p, free, 6)
			if !ok {
				o.write(tr)
				o.close()
				os.Exit(7)
			}
		})
		o.write(tr)
	}
	o.close()
}

var mostGates int

// scripts runs the same histories again and again, under every given schedule
// of the batch, and writes down those that turned out differently.
func scripts(t *testing.T, file string, seed int64, first, n int, p *profile, o *out) {
	b, err := os.ReadFile(file)
	if err != nil {
		t.Fatal(err)
	}
	var list []struct {
		Parts int      `json:"parts"`
		S     [][2]int `json:"s"`
	}
	if err := json.Unmarshal(b, &list); err != nil {
		t.Fatal(err)
	}
	ran := 0
	for i := first; i < first+n; i++ {
		seen := map[string]bool{}
		for _, parts := range []int{2, 3} {
			size := 0
			for _, s := range list {
				if s.Parts != parts || size > 0 && size != parts {
					continue
				}
				tr, r := newTrace(i, seed*1000003+int64(i), p)
				tr.Par = true
				tr.Script = s.S
				ok := true
				synctest.Test(t, func(t *testing.T) {
					ok = concurrent(tr, r, p, false, parts)
					if !ok {
						o.write(tr)
						o.close()
						os.Exit(7)
					}
				})
				ran++
				size = 0
				for k := range tr.Ev {
					if tr.Ev[k].Par {
						size++
					}
				}
				if k := string(tr.TLC()); !seen[k] {
					seen[k] = true
					o.write(tr)
				}
			}
		}
	}
	fmt.Printf("SCRIPTS %d %d\n", ran, mostGates)
}

// noteBatch leaves a history behind in case the process does not survive.
func noteBatch(tr *Trace, evs []*Event, kind string) {
	c := *tr
	c.Ev = append([]Event(nil), tr.Ev...)
	for _, e := range evs {
		x := *e
		x.R = lose(x.Q, x.Alt.Body)
		x.O = NullO()
		x.O.Kind = kind
		x.Par = true
		c.Ev = append(c.Ev, x)
	}
	b, _ := json.Marshal(map[string]interface{}{"full": &c, "tlc": json.RawMessage(c.TLC())})
	_ = os.WriteFile(os.Getenv("DRV_OUT")+".note", append(b, '\n'), 0o644)
}

func concurrent(tr *Trace, r *rand.Rand, p *profile, free bool, max int) bool {
	w := newWorld(tr)
	for _, l := range literals {
		w.labels[l] = l
	}
	g := &gen{w: w, r: r, p: p, t: tr}
	var intents []string
	for _, k := range intentOrder {
		for i := 0; i < p.w[k]; i++ {
			intents = append(intents, k)
		}
	}
	do := func(e *Event) {
		begin(tr, e)
		w.run(e)
		w.note(e)
		tr.Ev = append(tr.Ev, *e)
	}
	snap := func() {
		if len(w.creds) > 0 {
			do(g.newEvent("snap"))
		}
	}
	do(g.intent("smalltick"))
	// now and then among many others
	crowded := g.chance(0.05)
	if crowded {
		for i := 40 + g.r.Intn(100); i > 0; i-- {
			do(g.intent(g.pick("cc", "implicit", "password", "cc", "implicit", "authcode")))
		}
	}
	// what the batch is about: some credentials of every kind
	for i := 1 + g.r.Intn(8); i > 0 && len(w.creds) < 12; i-- {
		e := g.intent(intents[r.Intn(len(intents))])
		if g.chance(p.pMut) {
			g.spoil(e)
		}
		do(e)
		if g.chance(p.pSnap) {
			snap()
		}
	}
	if crowded || g.chance(0.7) {
		// make sure that there is a family
		e := g.intent("authcode")
		do(e)
		if c := w.byLab[e.O.Code]; c != nil && (crowded || g.chance(0.75)) {
			e = g.exchange(c)
			do(e)
			if c := w.byLab[e.O.RT]; c != nil && g.chance(0.4) {
				do(g.refresh(c))
			}
		}
	}
	if g.chance(0.2) {
		do(g.intent("tick"))
	}
	evs := g.clash(max, crowded)
	tr.SSeed, tr.Stick = r.Int63(), []float64{0, 0.5, 0.9}[r.Intn(3)]
	noteBatch(tr, evs, "crash")
	curTrace, curEvent = tr, evs[0]
	progress()
	t0 := time.Now()
	out, ok := w.batch(evs, free, tr)
	tr.Slept = time.Now() != t0
	if !ok {
		for _, e := range out {
			x := *e
			x.O = NullO()
			x.O.Kind = "deadlock"
			x.Par = true
			tr.Ev = append(tr.Ev, x)
		}
		return false
	}
	for _, e := range out {
		tr.Ev = append(tr.Ev, *e)
	}
	snap()
	// what is left of it
	for i := r.Intn(3); i > 0; i-- {
		do(g.intent(g.pick("exchange", "refresh", "replay", "refreshold", "introspect")))
	}
	snap()
	return true
}

// TestOrders runs recorded batches again one request at a time: every line is a
// trace whose batch is to be taken in the order it is written.
func TestOrders(t *testing.T) {
	if os.Getenv("DRV_MODE") != "orders" {
		t.Skip()
	}
	o := newOut()
	curOut = o
	eachTrace(t, func(tr *Trace) {
		synctest.Test(t, func(t *testing.T) { rerun(tr) })
		o.write(tr)
	})
	o.close()
}
