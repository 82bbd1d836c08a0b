package drv

import (
	"bufio"
	"encoding/json"
	"math/rand"
	"os"
	"strconv"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func envInt(k string, d int) int {
	n, err := strconv.Atoi(os.Getenv(k))
	if err != nil {
		return d
	}
	return n
}

// TestMain watches over the requests: one that does not come back ends the
// process with status 7 after the trace so far was written.
func TestMain(m *testing.M) {
	limit := envInt("DRV_STALL", 20)
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(500 * time.Millisecond)
			n := atomic.LoadInt64(&progressed)
			if n != last || atomic.LoadInt64(&idle) == 1 {
				last, since = n, time.Now()
				continue
			}
			if time.Since(since) > time.Duration(limit)*time.Second {
				dumpPending("hang")
				os.Exit(7)
			}
		}
	}()
	os.Exit(m.Run())
}

type out struct {
	full, tlc *bufio.Writer
	ff, tf    *os.File
}

func newOut() *out {
	o := &out{}
	var err error
	if o.ff, err = os.Create(os.Getenv("DRV_OUT") + ".full"); err != nil {
		panic(err)
	}
	if o.tf, err = os.Create(os.Getenv("DRV_OUT") + ".tlc"); err != nil {
		panic(err)
	}
	o.full, o.tlc = bufio.NewWriterSize(o.ff, 1<<20), bufio.NewWriterSize(o.tf, 1<<20)
	return o
}

func (o *out) write(t *Trace) {
	b, err := json.Marshal(t)
	if err != nil {
		panic(err)
	}
	o.full.Write(b)
	o.full.WriteByte('\n')
	o.tlc.Write(t.TLC())
	o.tlc.WriteByte('\n')
}

func (o *out) flush() {
	o.full.Flush()
	o.tlc.Flush()
}

func (o *out) close() {
	o.full.Flush()
	o.tlc.Flush()
	o.ff.Close()
	o.tf.Close()
}

// TestGen records random histories.
func TestGen(t *testing.T) {
	if os.Getenv("DRV_MODE") != "gen" {
		t.Skip()
	}
	seed := int64(envInt("DRV_SEED", 1))
	n, first := envInt("DRV_N", 10), envInt("DRV_FIRST", 1)
	ps := profilesFor(env("DRV_PROFILE", "mix"))
	o := newOut()
	curOut = o
	for i := first; i < first+n; i++ {
		p := ps[i%len(ps)]
		tr, r := newTrace(i, seed*1000003+int64(i), p)
		synctest.Test(t, func(t *testing.T) { generate(tr, r, p, nil) })
		o.write(tr)
	}
	o.close()
}

// generate runs one random history inside a bubble, after a prescribed prefix.
func generate(tr *Trace, r *rand.Rand, p *profile, prefix []Event) {
	w := newWorld(tr)
	for _, l := range literals {
		w.labels[l] = l
	}
	g := &gen{w: w, r: r, p: p, t: tr}
	var intents []string
	for _, k := range intentOrder {
		for i := 0; i < p.w[k]; i++ {
			intents = append(intents, k)
		}
	}
	do := func(e *Event) {
		begin(tr, e)
		w.run(e)
		w.note(e)
		tr.Ev = append(tr.Ev, *e)
	}
	snap := func() {
		if len(w.creds) > 0 {
			do(g.newEvent("snap"))
		}
	}
	pSnap := p.pSnap
	switch r.Intn(4) {
	case 0:
		pSnap = 0
	case 1:
		pSnap = 1
	}
	length := p.length/2 + r.Intn(p.length)
	bulk := prefix == nil && p.fault == 0 && g.chance(0.025)
	if bulk {
		// a long one: nothing may be forgotten
		length = 150 + r.Intn(100)
		pSnap = 0
	}
	var former []*Cfg
	// in some histories clients and users come, change and go
	moving := prefix == nil && g.chance(0.15)
	if prefix == nil {
		do(g.intent("smalltick"))
	} else {
		length = 2 + r.Intn(8)
		w.nextID = len(prefix) + 1000
		for i := range prefix {
			e := prefix[i]
			do(&e)
			if g.chance(pSnap) {
				snap()
			}
		}
	}
	// it may begin with a crowd: many credentials at the same time
	crowd := 0
	var issuing []string
	if bulk && g.chance(0.6) {
		for _, k := range intents {
			switch k {
			case "authcode", "implicit", "password", "cc", "exchange":
				issuing = append(issuing, k)
			}
		}
		if issuing != nil {
			crowd = 40 + r.Intn(100)
		}
	}
	if p.sweep != nil && prefix == nil {
		length, crowd = 50, 0
	}
	for i := 0; i < length; i++ {
		if p.sweep != nil && prefix == nil && i > 4 && i%8 != 0 {
			do(g.sweep(p.sweep, tr.ID*length+i))
			if g.chance(p.pSnap) {
				snap()
			}
			continue
		}
		name := intents[r.Intn(len(intents))]
		if i < crowd {
			do(g.intent(issuing[r.Intn(len(issuing))]))
			continue
		}
		if moving && g.chance(0.08) {
			name = "conf"
		}
		var e *Event
		if len(former) > 0 && g.chance(0.4) {
			// as things were before
			cur := tr.now
			tr.now = former[r.Intn(len(former))]
			e = g.intent(name)
			tr.now = cur
			if e.Conf != nil {
				continue
			}
		} else {
			e = g.intent(name)
		}
		if e.Conf != nil {
			former = append(former, tr.cur())
			if len(former) > 3 {
				former = former[1:]
			}
		}
		if !e.quiet() && g.chance(p.twins()) {
			// the same request with flaws first: they must not matter
			n := 1 + r.Intn(3)
			if g.chance(0.1) {
				n = 4 + r.Intn(9)
			}
			for k := 0; k < n; k++ {
				do(g.twin(e))
				if g.chance(pSnap * 0.3) {
					snap()
				}
			}
			g.w.nextID++
			e.ID = g.w.nextID
		} else if g.chance(p.pMut) {
			g.spoil(e)
		}
		if p.fault > 0 && g.chance(p.fault) && !e.quiet() {
			g.fault(e)
		}
		again := *e
		do(e)
		if (e.Q.Op != "tick" || p.fault == 0) && g.chance(pSnap) {
			snap()
		}
		if e.Alt.Fault != "" && g.chance(0.6) {
			// the same request again, undisturbed
			again.Alt.Fault = ""
			g.w.nextID++
			again.ID = g.w.nextID
			do(&again)
		} else if !e.quiet() && g.chance(0.06) {
			// or simply once more
			n := r.Intn(3)
			if g.chance(0.15) {
				n = 4 + r.Intn(8)
			}
			for k := 0; k <= n; k++ {
				rep := again
				g.w.nextID++
				rep.ID = g.w.nextID
				rep.Alt.Seed = r.Int63()
				do(&rep)
			}
		}
	}
	if len(w.creds) > 0 {
		snap()
	}
	if g.chance(p.pFinal) {
		n := 10
		if bulk {
			n = 60
		}
		g.final(do, n)
	}
}

// fault lets something break off during a request.
func (g *gen) fault(e *Event) {
	k := g.t.cur().KLen
	e.Alt.Fault = g.p.faults[g.r.Intn(len(g.p.faults))]
	switch e.Alt.Fault {
	case "rng":
		e.Alt.At = g.r.Intn(2*k + 1)
		if g.chance(0.4) {
			e.Alt.At = []int{0, k, k - 1, 2*k - 1, k + 1}[g.r.Intn(5)]
		}
	case "body":
		e.Alt.At = g.r.Intn(400)
	default:
		e.Alt.At = g.r.Intn(2)
	}
}

// final redeems what can be redeemed, and uses everything once more.
func (g *gen) final(do func(*Event), most int) {
	cs := append([]*cred(nil), g.w.creds...)
	g.r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	n := 0
	for _, c := range cs {
		if n >= most {
			break
		}
		if c.exp < g.w.now && g.chance(0.7) {
			continue
		}
		switch c.kind {
		case "code":
			e := g.exchange(c)
			do(e)
			n++
		case "refresh":
			e := g.refresh(c)
			do(e)
			n++
		}
		if g.chance(0.3) {
			do(g.newEvent("snap"))
		}
	}
	for i := 0; i < 4; i++ {
		do(g.intent(g.pick("introspect", "resource")))
	}
}

// TestPaths runs behaviours of the model (DRV_IN) and goes on at random.
func TestPaths(t *testing.T) {
	if os.Getenv("DRV_MODE") != "paths" {
		t.Skip()
	}
	ps := profilesFor(env("DRV_PROFILE", "mix"))
	o := newOut()
	curOut = o
	i := 0
	eachTrace(t, func(tr *Trace) {
		evs := tr.Ev
		tr.Ev = nil
		p := ps[i%len(ps)]
		i++
		tr.Profile = "path+" + p.name
		synctest.Test(t, func(t *testing.T) { generate(tr, rand.New(rand.NewSource(tr.Seed)), p, evs) })
		o.write(tr)
	})
	o.close()
}

func eachTrace(t *testing.T, f func(*Trace)) {
	in, err := os.Open(os.Getenv("DRV_IN"))
	if err != nil {
		t.Fatal(err)
	}
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var tr Trace
		if err := json.Unmarshal(sc.Bytes(), &tr); err != nil {
			t.Fatal(err)
		}
		if tr.Strings == nil {
			tr.Strings = map[string]string{}
		}
		f(&tr)
	}
	if sc.Err() != nil {
		t.Fatal(sc.Err())
	}
}

// TestRerun runs recorded or prescribed traces (DRV_IN, one per line).
func TestRerun(t *testing.T) {
	if os.Getenv("DRV_MODE") != "rerun" {
		t.Skip()
	}
	o := newOut()
	curOut = o
	eachTrace(t, func(tr *Trace) {
		synctest.Test(t, func(t *testing.T) { rerun(tr) })
		o.write(tr)
	})
	o.close()
}

func rerun(tr *Trace) {
	evs := tr.Ev
	tr.Ev = nil
	w := newWorld(tr)
	for _, l := range literals {
		w.labels[l] = l
	}
	w.anon = 100000
	for i := range evs {
		e := evs[i]
		begin(tr, &e)
		w.run(&e)
		w.note(&e)
		tr.Ev = append(tr.Ev, e)
	}
}
