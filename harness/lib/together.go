package lib

import (
	"bytes"
	"fmt"
	"math/rand"
	"net/http"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/256dpi/oauth2/v2"
)

// dump writes a value out with everything it refers to, the spare room of
// slices included.
func dump(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 8 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dump(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			dump(b, v.Field(i), depth+1)
			b.WriteString(",")
		}
		b.WriteString("}")
	case reflect.Slice:
		fmt.Fprintf(b, "%d[", v.Len())
		if !v.IsNil() {
			v = v.Slice(0, v.Cap())
		}
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), depth+1)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Map:
		var l []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			dump(&e, k, depth+1)
			e.WriteString("=")
			dump(&e, v.MapIndex(k), depth+1)
			l = append(l, e.String())
		}
		sort.Strings(l)
		fmt.Fprintf(b, "%q", l)
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	}
}

func dumped(v interface{}) string {
	var b strings.Builder
	dump(&b, reflect.ValueOf(v), 0)
	return b.String()
}

// keep remembers a value that has to stay as it is.
func (x *run) keep(vs ...interface{}) {
	if !x.together {
		return
	}
	for _, v := range vs {
		x.kept = append(x.kept, kept{v, dumped(v)})
	}
}

// mine remembers a list that belongs to the caller, who may do with it what
// he likes.
func (x *run) mine(l []string) {
	if x.together {
		x.lists = append(x.lists, l)
	}
}

type kept struct {
	v      interface{}
	before string
}

func (x *run) unchanged() bool {
	for _, k := range x.kept {
		if now := dumped(k.v); now != k.before {
			x.Info["changed"] = clip(k.before) + " -> " + clip(now)
			return false
		}
	}
	return true
}

// roomy copies a list to a place with room for more.
func roomy(l []string) []string {
	if l == nil {
		return nil
	}
	r := append(make([]string, 0, len(l)+3), l...)
	for k := range r[:cap(r)][len(r):] {
		r[:cap(r)][len(r)+k] = "spare"
	}
	return r
}

// one client for everybody
var (
	sharedOnce   sync.Once
	sharedClient *oauth2.Client
	answersTo    sync.Map // client id -> *canned
	serial       int64
)

type exchange struct{}

func (exchange) RoundTrip(req *http.Request) (*http.Response, error) {
	id, _, _ := req.BasicAuth()
	c, ok := answersTo.Load(id)
	if !ok {
		return nil, fmt.Errorf("no answer for %q", id)
	}
	return c.(*canned).RoundTrip(req)
}

// shared registers an answer and gives the client id it is for.
func shared(c *canned) (*oauth2.Client, string) {
	sharedOnce.Do(func() {
		sharedClient = oauth2.NewClientWithClient(oauth2.Default("http://auth.example.com"), &http.Client{Transport: exchange{}})
	})
	id := fmt.Sprintf("c%d", atomic.AddInt64(&serial, 1))
	answersTo.Store(id, c)
	return sharedClient, id
}

var keys sync.Map

// genone draws a token like anybody else does at the time.
func (x *run) genone() (M, M) {
	n := x.c.num("len")
	secret := x.secret("short")
	x.keep(secret)
	t, err := oauth2.GenerateHS256Token(secret, n)
	r := M{"ok": err == nil && t != nil, "klen": 0, "signed": false, "unique": false, "parses": false}
	if t == nil {
		return M{"len": n}, r
	}
	x.keep(t)
	_, twice := keys.LoadOrStore(string(t.Key), true)
	p, perr := oauth2.ParseHS256Token(secret, t.String())
	r["klen"], r["signed"], r["unique"] = len(t.Key), bytes.Equal(t.Signature, sign(secret, t.Key)), !twice
	r["parses"] = perr == nil && p != nil && bytes.Equal(p.Key, t.Key) && p.Valid(secret)
	return M{"len": n}, r
}

// job is a case to run.
type job struct {
	C    Case  `json:"c"`
	Seed int64 `json:"seed"`
}

// together runs cases at the same time; what they used and what they got has
// to be the same in the end.
func together(jobs []job) ([]M, bool) {
	xs := make([]*run, len(jobs))
	evs := make([]M, len(jobs))
	start := make(chan bool)
	done := make(chan int, len(jobs))
	for k, j := range jobs {
		x := &run{c: j.C, seed: j.Seed, r: rand.New(rand.NewSource(j.Seed)), lab: map[string]string{}, Info: map[string]string{}, together: true}
		xs[k] = x
		evs[k] = M{"op": j.C.str("op"), "i": M{}, "r": M{"panic": true, "hang": false, "kept": true}}
		go func(k int) {
			<-start
			defer func() {
				if e := recover(); e != nil {
					x.Info["panic"] = fmt.Sprint(e)
				}
				done <- k
			}()
			i, r := x.exec()
			r["panic"], r["hang"] = false, false
			evs[k] = M{"op": j.C.str("op"), "i": i, "r": r}
		}(k)
	}
	close(start)
	limit := time.After(60 * time.Second)
	for range jobs {
		select {
		case <-done:
		case <-limit:
			return nil, false
		}
	}
	var res []M
	for k, x := range xs {
		evs[k]["r"].(M)["kept"] = x.unchanged()
		res = append(res, M{"c": jobs[k].C, "seed": jobs[k].Seed, "e": evs[k], "info": x.Info})
	}
	for _, x := range xs {
		for _, l := range x.lists {
			for k := range l {
				l[k] = "written-by-the-caller"
			}
		}
	}
	return res, true
}
