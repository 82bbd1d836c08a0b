package drv

import (
	"net/url"
	"strings"
	"unicode"
)

// Sweeps: every place a request has for a value meets every odd text.

var oddTexts = func() []string {
	var l []string
	for c := 1; c < 128; c++ {
		l = append(l, string(rune(c)))
	}
	return append(l, "\"\"", "\"a\"", "\"a", "a\"", "''", "\\\"", "%s", "%00", "%", "%2", "\x00", "\r\n", "\r\nX: y", "\u00e9", "\u2028", "\U0001F511", "null", "true",
		"{}", "[]", "{\"a\":1}", "-1", "0", "1e309", "../..", "${x}", "{{x}}", "a=b", "a&b", "a;b", "a,b", "a, b=\"c\"", "<b>", "  ", " a", "a ", "a  b", "..", "a.b", ".a", "a.",
		"a.b.c", "....", "AA.AA", "A.A", "=.=", "AAAA.", ".AAAA", "Bearer", "Bearer a", "bearer  a", "bearer", "Basic", "basic a", "Basic Og==", "Basic YTpi", "Basic YQ==",
		"token", "code", "password", "code token", "offline_access", strings.Repeat("a", 10000), strings.Repeat("\"", 300), strings.Repeat(".", 300),
		strings.Repeat("a b ", 200), strings.Repeat("%25", 100), "http://", "http://x", "x://", "//x", "/", "/x", "http://[", "http://x:y", "http://x/#", "javascript:alert(1)")
}()

var sweepFields = []string{"tok-resource", "tok-introspect", "tok-revoke", "tok-exchange", "tok-refresh", "hdr", "need", "client-basic", "client-body",
	"secret", "grant", "rtype", "user-authorize", "pass-authorize", "user-token", "pass-token", "scope-authorize", "scope-token", "scope-refresh", "redir-authorize",
	"redir-token", "state", "hint", "method-token", "method-authorize", "path", "client-authorize", "client-introspect", "secret-revoke"}

// sweep is the k-th request of the sweep over the given places.
func (g *gen) sweep(fields []string, k int) *Event {
	if k < 0 {
		k = -k
	}
	n := len(fields) * len(oddTexts)
	k %= n
	f, s := fields[k%len(fields)], oddTexts[k/len(fields)]
	w := g.w
	raw := func(e *Event) *Event {
		e.Q.Tok = "!bad"
		e.Alt.Mode, e.Alt.Text = "raw", Raw(s)
		return e
	}
	switch f {
	case "tok-resource":
		if strings.TrimSpace(s) == "" {
			s = "x" + s
		}
		return raw(g.newEvent("resource"))
	case "tok-introspect", "tok-revoke":
		e := g.newEvent(f[4:])
		id, _ := g.client()
		g.auth(&e.Q, id)
		return raw(e)
	case "tok-exchange", "tok-refresh":
		e := g.newEvent("token")
		e.Q.Grant = "authorization_code"
		if f == "tok-refresh" {
			e.Q.Grant = "refresh_token"
		}
		id, c := g.client()
		g.auth(&e.Q, id)
		if f == "tok-exchange" {
			e.Q.Redir = c.Redirect
		}
		return raw(e)
	case "hdr":
		e := g.newEvent("resource")
		e.Q.Hdr = "bad"
		t := strings.ToLower(s)
		if strings.HasPrefix(t, "bearer ") {
			s = "x" + s
		}
		e.Alt.Mode, e.Alt.Text = "raw", Raw(s)
		return e
	case "need":
		e := g.intent("resource")
		if e.Q.Op == "resource" && !strings.ContainsAny(s, " \",") {
			e.Q.Need = append(e.Q.Need, w.intern(s))
		}
		return e
	case "client-basic", "client-body", "client-introspect":
		e := g.intent(g.pick("password", "cc"))
		if f == "client-introspect" {
			e = g.newEvent(g.pick("introspect", "revoke"))
			e.Q.Tok = "!unk"
			e.Alt.Mode = "fresh"
		}
		e.Q.CAuth = "basic"
		if f == "client-body" {
			e.Q.CAuth = "body"
		} else if strings.Contains(s, ":") {
			s = strings.Replace(s, ":", "-", -1)
		}
		e.Q.Client = w.intern(s)
		return e
	case "secret", "secret-revoke":
		e := g.intent(g.pick("password", "cc"))
		if f == "secret-revoke" {
			e = g.newEvent(g.pick("introspect", "revoke"))
			id, _ := g.client()
			g.auth(&e.Q, id)
			e.Q.Tok = "!unk"
			e.Alt.Mode = "fresh"
		}
		e.Q.Secret = w.intern(s)
		return e
	case "grant":
		e := g.intent("password")
		e.Q.Grant = w.intern(s)
		return e
	case "rtype", "state", "client-authorize", "user-authorize", "pass-authorize", "scope-authorize", "redir-authorize":
		e := g.intent(g.pick("authcode", "implicit"))
		switch f {
		case "rtype":
			e.Q.RType = w.intern(s)
		case "state":
			e.Q.State = w.intern(s)
		case "client-authorize":
			e.Q.Client = w.intern(s)
		case "user-authorize":
			e.Q.User = w.intern(s)
		case "pass-authorize":
			e.Q.Pass = w.intern(s)
		case "scope-authorize":
			g.setScope(&e.Q, s)
		case "redir-authorize":
			g.rawRedir(&e.Q, &e.Alt, s)
		}
		return e
	case "user-token", "pass-token", "scope-token":
		e := g.intent("password")
		switch f {
		case "user-token":
			e.Q.User = w.intern(s)
		case "pass-token":
			e.Q.Pass = w.intern(s)
		case "scope-token":
			g.setScope(&e.Q, s)
		}
		return e
	case "scope-refresh":
		e := g.intent("refresh")
		if e.Q.Op == "token" {
			g.setScope(&e.Q, s)
		}
		return e
	case "redir-token":
		e := g.intent("exchange")
		if e.Q.Grant == "authorization_code" {
			g.rawRedir(&e.Q, &e.Alt, s)
		}
		return e
	case "hint":
		e := g.intent(g.pick("introspect", "revoke"))
		if e.Q.Op == "introspect" || e.Q.Op == "revoke" {
			e.Q.Hint = w.intern(s)
		}
		return e
	case "method-token", "method-authorize":
		e := g.intent(g.pick("password", "cc"))
		if f == "method-authorize" {
			e = g.intent(g.pick("authcode", "implicit"))
		}
		e.Q.QF = nil
		e.Q.Method = s
		return e
	}
	switch s {
	case "token", "authorize", "introspect", "revoke":
		s += "x"
	}
	e := g.newEvent("other")
	e.Q.Op = "other"
	e.Alt.Mode, e.Alt.Text = "raw", Raw(s)
	return e
}

func (g *gen) setScope(q *Q, s string) {
	q.Scope = nil
	for _, x := range strings.Split(s, " ") {
		if x != "" && strings.IndexFunc(x, unicode.IsSpace) < 0 {
			q.Scope = append(q.Scope, g.w.intern(x))
		}
	}
}

// rawRedir sets the redirect URI of a request to a text as it is.
func (g *gen) rawRedir(q *Q, a *Alt, s string) {
	if badRedirect(s) {
		q.Redir, a.Redir = "!bad", s
		return
	}
	u, _ := url.QueryUnescape(s)
	if u == "" {
		q.Redir = ""
		return
	}
	q.Redir = g.w.intern(u)
}
