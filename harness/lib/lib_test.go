package lib

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"testing"
	"time"

	_ "a.verif/h/rnd"
	"github.com/256dpi/oauth2/v2"
)

func quote(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

var meant = [][]string{
	{"foo:*", "foo:read", "foo:write", "foo", "foo:"},
	{"*", "foo", "bar", "**", ""},
	{"foo.*", "foo.bar", "foo.bar.baz", "foo."},
	{"foo/", "foo/bar", "/foo", "foo", "/"},
	{"admin", "read", "write", "all", "any", "openid", "root", "superuser"},
	{"foo", "Foo", "FOO", "foO", "fo", "fooo", "oo"},
	{"a", "a-b", "a_b", "a b", "ab", "b", "-a", "!a", "~a", "^a", "a|b", "a,b", "[ab]", "a?", "a+", ".", ".*", "%"},
	{"ſ", "s", "S", "K", "k", "K", "é", "e\u0301", "İ", "i"},
	{"foo\x00", "foo", "foo\n", "foo\t", "\tfoo", "foo\u00a0", "foo\u200b", "\ufefffoo"},
	{"1", "01", "1.0", "+1", "true", "null", "nil", "none"},
	{"foo#1", "foo:1", "foo=1", "foo@x", "foo"},
}

func (x *run) scopes() (M, M) {
	strs := func(l [][]byte) []string {
		var r []string
		for _, b := range l {
			r = append(r, string(b))
		}
		return r
	}
	items := strs(seqOf(x.c["items"]))
	s := string(bytesOf(x.c["s"]))
	a, b := strs(seqOf(x.c["a"])), strs(seqOf(x.c["b"]))
	y := string(bytesOf(x.c["x"]))
	if x.c.flag("rand") {
		// any texts instead of the enumerated ones
		n, m := x.r.Intn(6), x.r.Intn(6)
		if x.r.Intn(25) == 0 {
			// many of them
			m = x.r.Intn(120)
		}
		items = x.items(n)
		if m > 5 {
			for k := 0; k < m; k++ {
				items = append(items, x.pick("foo", "a", "b:c", "é", "zz"))
			}
		}
		s = ""
		for k := 0; k < m; k++ {
			it := x.item()
			if m > 5 {
				it = x.pick("foo", "a", "b:c", "é", "zz")
			}
			s += x.pick("", " ", "  ", "   ") + it + x.pick(" ", "  ", "     ")
		}
		pool := x.items(4)
		if x.r.Intn(2) == 0 {
			// items that look as if they meant one another
			pool = meant[x.r.Intn(len(meant))]
		}
		sub := func() []string {
			var l []string
			n := x.r.Intn(5)
			if m > 5 {
				n = x.r.Intn(60)
			}
			for k := 0; k < n; k++ {
				l = append(l, pool[x.r.Intn(len(pool))])
			}
			return l
		}
		a, b = sub(), sub()
		y = pool[0]
	}
	items, a, b = roomy(items), roomy(a), roomy(b)
	x.keep(items, a, b)
	switch x.c.str("op") {
	case "scopeparse":
		got := oauth2.ParseScope(s)
		x.keep([]string(got))
		x.mine(got)
		return M{"s": ints(s)}, M{"items": intss(got)}
	case "scopeformat":
		f := oauth2.Scope(items).String()
		return M{"items": intss(items)}, M{"s": ints(f), "again": intss(oauth2.ParseScope(f))}
	case "scopejson":
		buf, err := json.Marshal(oauth2.Scope(items))
		var f string
		ok := err == nil && json.Unmarshal(buf, &f) == nil
		var again oauth2.Scope
		ok = ok && json.Unmarshal(buf, &again) == nil
		return M{"items": intss(items)}, M{"s": ints(f), "again": intss(again), "ok": ok}
	case "scopeunjson":
		buf, _ := json.Marshal(s)
		sc := oauth2.Scope{"stale"}
		err := json.Unmarshal(buf, &sc)
		x.keep([]string(sc))
		x.mine(sc)
		return M{"s": ints(s)}, M{"items": intss(sc), "ok": err == nil}
	case "scopeincl":
		return M{"a": intss(a), "b": intss(b)}, M{"incl": oauth2.Scope(a).Includes(oauth2.Scope(b)), "empty": oauth2.Scope(a).Empty()}
	default:
		return M{"a": intss(a), "x": ints(y)}, M{"cont": oauth2.Scope(a).Contains(y)}
	}
}

func (x *run) exec() (i, r M) {
	switch x.c.str("op") {
	case "tokenparse":
		return x.tokenparse()
	case "tokenmake":
		return x.tokenmake()
	case "generate":
		return x.generate()
	case "tokenresp":
		return x.tokenresp()
	case "coderesp":
		return x.coderesp()
	case "write":
		return x.write()
	case "introresp":
		return x.introresp()
	case "redirect":
		return x.redirect()
	case "error":
		return x.errorcase()
	case "othererror":
		return x.othererror()
	case "errortable":
		return x.errortable()
	case "tokenreq":
		return x.tokenreq()
	case "introreq":
		return x.tokreq(true)
	case "revokereq":
		return x.tokreq(false)
	case "tokenrestrip":
		return x.tokenrestrip()
	case "introrestrip":
		return x.introrestrip()
	case "live":
		return x.live()
	case "genone":
		return x.genone()
	case "parse":
		return x.parse()
	case "known":
		return x.known()
	case "client":
		return x.client()
	}
	return x.scopes()
}

// observe runs a case and survives it.
func observe(c Case, seed int64) (ev M, info map[string]string, hang bool) {
	x := &run{c: c, seed: seed, r: rand.New(rand.NewSource(seed)), lab: map[string]string{}, Info: map[string]string{}}
	ev = M{"op": c.str("op"), "i": M{}, "r": M{"panic": true, "hang": false}}
	done := make(chan bool, 1)
	var i, r M
	var crash string
	go func() {
		defer func() {
			if e := recover(); e != nil {
				crash = fmt.Sprint(e)
			}
			done <- true
		}()
		i, r = x.exec()
	}()
	select {
	case <-done:
	case <-time.After(15 * time.Second):
		return M{"op": c.str("op"), "i": M{}, "r": M{"panic": false, "hang": true}}, map[string]string{"hang": "no result after 15 s"}, true
	}
	if crash != "" {
		return ev, map[string]string{"panic": crash}, false
	}
	r["panic"], r["hang"] = false, false
	ev["i"], ev["r"] = i, r
	return ev, x.Info, false
}

// TestCases runs the cases of LIB_IN: lines {"c": case, "seed": n}.
func TestCases(t *testing.T) {
	in := os.Getenv("LIB_IN")
	if in == "" {
		t.Skip()
	}
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	of, err := os.Create(os.Getenv("LIB_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	note := os.Getenv("LIB_NOTE")
	o := bufio.NewWriterSize(of, 1<<20)
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var in struct {
			C    Case  `json:"c"`
			Seed int64 `json:"seed"`
		}
		if err := json.Unmarshal(sc.Bytes(), &in); err != nil {
			t.Fatal(err)
		}
		if note != "" {
			o.Flush()
			b, _ := json.Marshal(M{"c": in.C, "seed": in.Seed, "e": M{"op": in.C.str("op"), "i": M{}, "r": M{"panic": true, "hang": false}},
				"info": M{"crash": "the process died"}})
			_ = os.WriteFile(note, b, 0o644)
		}
		ev, info, hang := observe(in.C, in.Seed)
		b, err := json.Marshal(M{"c": in.C, "seed": in.Seed, "e": ev, "info": info})
		if err != nil {
			t.Fatal(err)
		}
		o.Write(b)
		o.WriteByte('\n')
		if hang {
			o.Flush()
			of.Close()
			os.Exit(7)
		}
	}
	o.Flush()
	of.Close()
}

// TestTogether runs the batches of LIB_IN: lines {"b": [{"c": case, "seed": n}]}.
func TestTogether(t *testing.T) {
	in := os.Getenv("LIB_IN")
	if in == "" {
		t.Skip()
	}
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	of, err := os.Create(os.Getenv("LIB_OUT"))
	if err != nil {
		t.Fatal(err)
	}
	o := bufio.NewWriterSize(of, 1<<20)
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for n := 0; sc.Scan(); n++ {
		var in struct {
			B []job `json:"b"`
		}
		if err := json.Unmarshal(sc.Bytes(), &in); err != nil {
			t.Fatal(err)
		}
		fmt.Fprintf(os.Stderr, "batch %d\n", n)
		res, ok := together(in.B)
		if !ok {
			o.Flush()
			of.Close()
			os.Exit(7)
		}
		b, err := json.Marshal(M{"b": res})
		if err != nil {
			t.Fatal(err)
		}
		o.Write(b)
		o.WriteByte('\n')
	}
	o.Flush()
	of.Close()
}
