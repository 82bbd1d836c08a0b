package drv

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"mime"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"time"

	"a.verif/h/rnd"
	"github.com/256dpi/oauth2/v2"
)

var errWrite = errors.New("connection is gone")

type abortValue struct{}

// recorder is a response writer that can fail.
type recorder struct {
	hdr    http.Header
	snap   http.Header
	status int
	body   bytes.Buffer
	fault  string // write, abort
	at     int    // abort: 0 at the status line, 1 at the body
	val    interface{}
	hit    bool
	gate   func()
	calls  int
}

func newRecorder() *recorder { return &recorder{hdr: http.Header{}} }

func (r *recorder) Header() http.Header { return r.hdr }

func (r *recorder) WriteHeader(status int) {
	if r.gate != nil {
		r.gate()
	}
	if r.status == 0 {
		r.status = status
		r.snap = r.hdr.Clone()
	}
	if r.fault == "abort" && r.at == 0 {
		r.hit = true
		panic(r.val)
	}
}

func (r *recorder) Write(p []byte) (int, error) {
	if r.gate != nil {
		r.gate()
	}
	if r.status == 0 {
		r.status = 200
		r.snap = r.hdr.Clone()
	}
	r.calls++
	r.body.Write(p)
	if r.fault == "abort" {
		r.hit = true
		panic(r.val)
	}
	if r.fault == "write" {
		r.hit = true
		return 0, errWrite
	}
	return len(p), nil
}

// newCred remembers an issued credential under the label for event id.
func (w *world) newCred(kind, str string, e *Event, q *Q, o *O) string {
	if c, ok := w.byStr[str]; ok {
		return c.label // an old one again
	}
	c := &cred{label: fmt.Sprintf("T%d%c", e.ID, kind[0]), str: str, kind: kind}
	if _, dup := w.byLab[c.label]; dup {
		c.label += "b"
	}
	switch {
	case q.Op == "authorize":
		c.client, c.user, c.scope, c.redir = q.Client, q.User, q.Scope, q.Redir
	case q.Op == "token":
		c.client = q.Client
		switch w.str(q.Grant) {
		case "password":
			c.user, c.scope = q.User, q.Scope
		case "client_credentials":
			c.scope = q.Scope
		default:
			c.scope = o.Scope
			if p := w.byLab[q.Tok]; p != nil {
				c.client, c.user, c.root, c.from = p.client, p.user, p.root, p.label
				if p.kind == "code" {
					c.root = p.label
				}
				if len(c.scope) == 0 {
					c.scope = p.scope
				}
			}
		}
	}
	switch kind {
	case "code":
		c.exp = w.now + w.t.cur().CL
	case "access":
		c.exp = w.now + w.t.cur().AL
	case "refresh":
		c.exp = w.now + w.t.cur().RL
	}
	w.creds = append(w.creds, c)
	w.byStr[str] = c
	w.byLab[c.label] = c
	return c.label
}

// keyPos locates the key of a credential in the random stream.
func keyPos(str string, log []byte) [2]int {
	parts := strings.Split(str, ".")
	key, err := b64.DecodeString(parts[0])
	if err != nil {
		return [2]int{-1, 0}
	}
	return [2]int{bytes.LastIndex(log, key), len(key)}
}

// lose drops the fields that a body of the wrong type does not deliver.
func lose(q Q, body string) Q {
	switch body {
	case "multipart", "json", "noct":
	default:
		return q
	}
	if q.Method == "GET" || q.Op == "resource" || q.Op == "other" {
		return q
	}
	keep := func(n string) bool { return has(q.QF, n) }
	if !keep("rtype") {
		q.RType = ""
	}
	if !(q.Op != "authorize" && q.CAuth == "basic") {
		if !keep("client") {
			q.Client = ""
		}
		if !keep("secret") {
			q.Secret = ""
		}
	}
	if !keep("redir") {
		q.Redir = ""
	}
	if !keep("scope") {
		q.Scope = nil
	}
	if !keep("state") {
		q.State = ""
	}
	if !keep("user") {
		q.User = ""
	}
	if !keep("pass") {
		q.Pass = ""
	}
	if !keep("grant") {
		q.Grant = ""
	}
	if !keep("tok") {
		q.Tok = ""
	}
	if !keep("hint") {
		q.Hint = ""
	}
	return q
}

// run performs one event and fills in what was observed.
func (w *world) run(e *Event) {
	e.O = NullO()
	e.R = lose(e.Q, e.Alt.Body)
	switch e.Q.Op {
	case "tick":
		time.Sleep(w.ticks(e.Q.D))
		w.now += e.Q.D
		e.O.Kind = "time"
	case "conf":
		w.conf(e)
		e.O.Kind = "conf"
	case "seed":
		w.seed(e)
		e.O.Kind = "seeded"
	case "snap":
		w.snapshot(e)
	default:
		w.perform(e)
	}
	if e.R.Op == "resource" || e.R.Op == "introspect" || e.R.Op == "revoke" || e.R.Op == "token" {
		// a reference to something that was never issued is no token at all
		if !strings.HasPrefix(e.R.Tok, "!") && e.R.Tok != "" && w.byLab[e.R.Tok] == nil {
			e.R.Tok = ""
			if e.R.Op == "resource" && e.R.Hdr == "bearer" {
				e.R.Hdr = "bad"
			}
		}
	}
}

func (w *world) perform(e *Event) {
	q, a := &e.Q, &e.Alt
	req := w.concretize(q, a)
	rec := newRecorder()
	if a.Fault == "write" || a.Fault == "abort" {
		rec.fault, rec.at = a.Fault, a.At%2
		rec.val = abortValue{}
		if a.Seed%3 == 0 {
			rec.val = http.ErrAbortHandler
		}
	}
	if a.Fault == "rng" {
		rnd.S.FailAfter(a.At, a.Seed%2 == 0)
	}
	before := w.stored()
	panicked, pv, granted := w.serve(rec, req, q)
	after := w.stored()
	rngHit := rnd.S.Hit
	if a.Fault == "rng" {
		rnd.S.FailAfter(-1, false)
		rnd.S.Hit = false
	}
	switch {
	case a.Fault == "rng" && rngHit:
		e.R.Fault = "rng"
	case req.hit:
		e.R.Fault = "body"
	case rec.hit:
		e.R.Fault = rec.fault
	}
	w.classifyResponse(e, rec, granted)
	for i := range after {
		if after[i] > before[i] {
			e.O.Grew = true
		}
	}
	if strings.HasPrefix(a.Mode, "alias") && e.O.Kind == "error" && (e.O.Err == "invalid_request" || e.O.Err == "invalid_token") {
		// a server may insist on the canonical form
		if c := w.byLab[q.Tok]; c != nil && req.tok != c.str && e.R.Tok == q.Tok {
			e.R.Tok = "!bad"
		}
	}
	if panicked {
		if pv == rec.val && rec.hit {
			// the connection went away
		} else {
			e.O.Kind = "panic"
			e.Raw = fmt.Sprint(pv)
		}
	}
	if e.R.Fault == "write" || e.R.Fault == "abort" {
		if e.O.Kind != "panic" {
			e.O.Kind = "lost"
		}
	}
}

func (w *world) serve(rec *recorder, req *request, q *Q) (panicked bool, pv interface{}, granted bool) {
	defer func() {
		if v := recover(); v != nil {
			panicked, pv = true, v
		}
	}()
	progress()
	if q.Op == "resource" {
		granted = w.srv.Authorize(rec, req.r, req.need)
	} else {
		w.srv.ServeHTTP(rec, req.r)
	}
	return
}

func vals(m map[string]interface{}, k string) string {
	switch v := m[k].(type) {
	case string:
		return v
	case float64:
		return strconv.FormatFloat(v, 'f', -1, 64)
	case nil:
		return ""
	default:
		return fmt.Sprint(v)
	}
}

func atoi(s string) int {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil || n > 2000000000 || n < -2000000000 {
		return -999999
	}
	return int(n)
}

// splitScope splits a scope string on spaces, as the specification reads it.
func (w *world) splitScope(s string) []string {
	var r []string
	for _, x := range strings.Split(s, " ") {
		if x != "" {
			r = append(r, w.intern(x))
		}
	}
	return r
}

var bearerKeys = []string{"error", "error_description", "error_uri", "scope", "realm", "state"}

// parseChallenge reads the parameters of a Bearer challenge.
func parseChallenge(h string) (map[string]string, bool) {
	if !strings.HasPrefix(h, "Bearer ") {
		return nil, false
	}
	m := map[string]string{}
	for _, p := range strings.Split(h[len("Bearer "):], ", ") {
		kv := strings.SplitN(p, "=", 2)
		if len(kv) != 2 || len(kv[1]) < 2 || kv[1][0] != '"' || kv[1][len(kv[1])-1] != '"' {
			return nil, false
		}
		m[kv[0]] = kv[1][1 : len(kv[1])-1]
	}
	return m, true
}

// samePath tells whether the paths of two URLs have the same segments.
func samePath(a, b *url.URL) bool {
	x, y := strings.Split(a.EscapedPath(), "/"), strings.Split(b.EscapedPath(), "/")
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		p, err := url.PathUnescape(x[i])
		if err != nil {
			return false
		}
		q, err := url.PathUnescape(y[i])
		if err != nil || p != q {
			return false
		}
	}
	return true
}

// looseQuery decodes a query; only & separates parameters, and what cannot be
// decoded is taken as it is.
func looseQuery(s string) url.Values {
	m := url.Values{}
	un := func(s string) string {
		if x, err := url.QueryUnescape(s); err == nil {
			return x
		}
		return s
	}
	for _, part := range strings.Split(s, "&") {
		if part != "" {
			k, v, _ := strings.Cut(part, "=")
			m[un(k)] = append(m[un(k)], un(v))
		}
	}
	return m
}

// targetOf finds the registered redirect URI a location leads to and the
// parameters that were added to its query.
func (w *world) targetOf(loc *url.URL, client string) (string, url.Values) {
	q := looseQuery(loc.RawQuery)
	var regs []string
	if c, ok := w.t.cur().Clients[client]; ok {
		regs = append(regs, c.Redirect)
	}
	for _, id := range sortedKeys(w.t.cur().Clients) {
		regs = append(regs, w.t.cur().Clients[id].Redirect)
	}
	for _, l := range regs {
		u, err := url.ParseRequestURI(w.str(l))
		if err != nil {
			continue
		}
		if u.Scheme != loc.Scheme || u.Host != loc.Host || !samePath(u, loc) || u.Opaque != loc.Opaque || u.User.String() != loc.User.String() {
			continue
		}
		rest := url.Values{}
		for k, v := range q {
			rest[k] = append([]string(nil), v...)
		}
		ok := true
		for k, vs := range looseQuery(u.RawQuery) {
			for _, v := range vs {
				i := -1
				for j, x := range rest[k] {
					if x == v {
						i = j
						break
					}
				}
				if i < 0 {
					ok = false
					break
				}
				rest[k] = append(rest[k][:i], rest[k][i+1:]...)
				if len(rest[k]) == 0 {
					delete(rest, k)
				}
			}
		}
		if ok {
			return l, rest
		}
	}
	return w.intern("?" + loc.String()), q
}

func (w *world) classifyResponse(e *Event, rec *recorder, granted bool) {
	q, o := &e.Q, &e.O
	if q.Op == "resource" {
		w.classifyResource(e, rec, granted)
		return
	}
	h := rec.snap
	if h == nil {
		h = rec.hdr
	}
	o.Status = rec.status
	o.Touched = rec.status != 0
	if rec.status == 0 {
		o.Status = 200 // what net/http sends
	}
	w.headerFacts(o, h)
	body := rec.body.Bytes()
	loc := h.Get("Location")
	ct, _, _ := mime.ParseMediaType(h.Get("Content-Type"))
	var strsIssued []string
	issue := func(kind, str string) string {
		l := w.newCred(kind, str, e, q, o)
		strsIssued = append(strsIssued, str)
		if l != "" {
			o.Bytes = append(o.Bytes, keyPos(str, rnd.S.Log))
		}
		return l
	}
	switch {
	case loc != "":
		if len(h["Location"]) != 1 {
			o.Kind = "weird"
			return
		}
		o.HD = append(o.HD, "location")
		base, frag, hasFrag := strings.Cut(loc, "#")
		u, err := url.Parse(base)
		if err != nil {
			o.Kind = "weird"
			return
		}
		target, rest := w.targetOf(u, q.Client)
		o.Target = target
		params := rest
		o.Via = "query"
		if hasFrag {
			o.Via = "fragment"
			params, err = url.ParseQuery(frag)
			if err != nil {
				o.Kind = "weird"
				return
			}
			if len(rest) != 0 {
				// something was added to the query as well
				o.Target = w.intern("?" + loc)
			}
		}
		for k, v := range params {
			o.Keys = append(o.Keys, k)
			if len(v) != 1 {
				o.Keys = append(o.Keys, k+"#dup")
			}
		}
		sort.Strings(o.Keys)
		o.State = w.intern(params.Get("state"))
		o.Err = params.Get("error")
		o.Scope = w.splitScope(params.Get("scope"))
		switch {
		case params.Get("access_token") != "":
			o.Kind = "tokens"
			o.AT = issue("access", params.Get("access_token"))
			if s := params.Get("refresh_token"); s != "" {
				o.RT = issue("refresh", s)
			}
			o.TType = params.Get("token_type")
			o.ExpIn = atoi(params.Get("expires_in"))
			if o.Err != "" {
				o.Kind = "weird"
			}
			if s := params.Get("code"); s != "" {
				o.Code = issue("code", s)
			}
		case params.Get("code") != "":
			o.Kind = "code"
			o.Code = issue("code", params.Get("code"))
			if o.Err != "" {
				o.Kind = "weird"
			}
		case o.Err != "":
			o.Kind = "error"
		default:
			o.Kind = "weird"
		}
	case ct == "application/json":
		o.Via = "json"
		var m map[string]interface{}
		dec := json.NewDecoder(bytes.NewReader(body))
		if err := dec.Decode(&m); err != nil || m == nil || strings.TrimSpace(string(body[dec.InputOffset():])) != "" {
			o.Kind = "weird"
			e.Raw = string(body)
			return
		}
		for k := range m {
			o.Keys = append(o.Keys, k)
		}
		sort.Strings(o.Keys)
		o.Err = vals(m, "error")
		o.State = w.intern(vals(m, "state"))
		o.Scope = w.splitScope(vals(m, "scope"))
		switch {
		case m["access_token"] != nil:
			o.Kind = "tokens"
			o.AT = issue("access", vals(m, "access_token"))
			if s := vals(m, "refresh_token"); s != "" {
				o.RT = issue("refresh", s)
			}
			o.TType = vals(m, "token_type")
			if _, ok := m["expires_in"].(float64); ok {
				o.ExpIn = atoi(vals(m, "expires_in"))
			} else {
				o.ExpIn = -999999
			}
			if o.Err != "" {
				o.Kind = "weird"
			}
		case m["active"] != nil:
			o.Kind = "info"
			b, ok := m["active"].(bool)
			if !ok || o.Err != "" {
				o.Kind = "weird"
			}
			o.Active = b
			o.IClient = w.intern(vals(m, "client_id"))
			o.IUser = w.intern(vals(m, "username"))
			o.IType = vals(m, "token_type")
			if s := vals(m, "exp"); s != "" {
				n, err := strconv.ParseInt(s, 10, 64)
				if err != nil {
					o.Kind = "weird"
				}
				o.IExp = atoi(strconv.FormatInt(n-w.base.Unix(), 10))
			}
			if o.Active && o.IClient == "" {
				o.IClient = "!none"
			}
		case o.Err != "":
			o.Kind = "error"
		default:
			o.Kind = "weird"
		}
	case o.Status == 404:
		o.Kind = "notfound"
	case q.Op == "revoke" && o.Status == 200:
		o.Kind = "ok"
	case q.Op == "authorize" && o.Status == 200 && q.Method == "GET" && len(body) > 0:
		o.Kind = "notice"
	case o.Status >= 400:
		o.Kind = "error"
		o.Via = "plain"
		if b, ok := parseChallenge(h.Get("WWW-Authenticate")); ok {
			o.Err = b["error"]
			o.Via = "bearer"
		}
	case rec.status == 0:
		o.Kind = "empty"
	default:
		o.Kind = "weird"
	}
	o.Leak = w.leaks(h, body, strsIssued, q)
	if o.Kind == "weird" || o.Kind == "empty" {
		e.Raw = fmt.Sprint(rec.status, " ", h, " ", string(body))
		if len(e.Raw) > 500 {
			e.Raw = e.Raw[:500]
		}
	}
}

func (w *world) headerFacts(o *O, h http.Header) {
	if ct, _, err := mime.ParseMediaType(h.Get("Content-Type")); err == nil && ct == "application/json" {
		o.HD = append(o.HD, "json")
	}
	if strings.Contains(strings.ToLower(h.Get("Cache-Control")), "no-store") {
		o.HD = append(o.HD, "nostore")
	}
	if strings.Contains(strings.ToLower(h.Get("Pragma")), "no-cache") {
		o.HD = append(o.HD, "pragma")
	}
	switch h.Get("Referrer-Policy") {
	case "origin", "no-referrer", "strict-origin", "same-origin":
		o.HD = append(o.HD, "referrer")
	}
	if h.Get("WWW-Authenticate") != "" {
		o.HD = append(o.HD, "challenge")
	}
}

func (w *world) classifyResource(e *Event, rec *recorder, granted bool) {
	o := &e.O
	o.Touched = rec.status != 0 || rec.body.Len() > 0 || len(rec.hdr) > 0
	h := rec.snap
	if h == nil {
		h = rec.hdr
	}
	if granted {
		o.Kind = "granted"
		o.Status = 200
		return
	}
	o.Status = rec.status
	o.Kind = "error"
	w.headerFacts(o, h)
	if b, ok := parseChallenge(h.Get("WWW-Authenticate")); ok {
		o.Via = "bearer"
		o.Err = b["error"]
		o.Scope = w.splitScope(b["scope"])
		for k := range b {
			o.Keys = append(o.Keys, k)
		}
		sort.Strings(o.Keys)
	}
	if rec.status == 0 {
		o.Kind = "empty"
	}
	o.Leak = w.leaks(h, rec.body.Bytes(), nil, &e.Q)
}

// leaks tells whether the response contains a secret, a password or a
// credential other than those it issues.
func (w *world) leaks(h http.Header, body []byte, issued []string, q *Q) bool {
	var all bytes.Buffer
	for k, vs := range h {
		for _, v := range vs {
			fmt.Fprintf(&all, "%s: %s\n", k, v)
			if u, err := url.QueryUnescape(v); err == nil {
				all.WriteString(u)
			}
		}
	}
	all.Write(body)
	text := all.Bytes()
	probe := func(s string) bool { return len(s) >= 12 && bytes.Contains(text, []byte(s)) }
	for _, c := range w.t.cur().Clients {
		if probe(w.str(c.Secret)) {
			return true
		}
	}
	for _, u := range w.t.cur().Users {
		if probe(w.str(u.Pass)) {
			return true
		}
	}
	for _, l := range []string{q.Secret, q.Pass} {
		if s := w.str(l); strings.HasPrefix(s, "S3cr3t") || strings.HasPrefix(s, "Passw0rd") {
			if probe(s) {
				return true
			}
		}
	}
	for _, c := range w.creds {
		if has(issued, c.str) {
			continue
		}
		// either half of a credential is the credential: what is stored is one
		for _, s := range append(strings.Split(c.str, "."), c.str) {
			if probe(s) && w.str(q.State) != s {
				return true
			}
		}
	}
	return false
}

// seed places a credential into the store of the server, as tests do.
func (w *world) seed(e *Event) {
	s := e.Q.Cred
	tk := oauth2.MustGenerateHS256Token(w.t.Secret, w.t.cur().KLen)
	root := ""
	if c := w.byLab[s.Root]; c != nil {
		root = strings.Split(c.str, ".")[1]
	}
	sc := &oauth2.ServerCredential{
		ClientID: w.str(s.Client), Username: w.str(s.User),
		ExpiresAt: time.Now().Add(w.ticks(s.Exp - w.now)),
		Scope:     oauth2.Scope(w.strs(s.Scope)), RedirectURI: w.str(s.Redir), Code: root,
		Used: s.Status == "used",
	}
	switch s.Kind {
	case "access":
		w.srv.AccessTokens[tk.SignatureString()] = sc
	case "refresh":
		w.srv.RefreshTokens[tk.SignatureString()] = sc
	case "code":
		w.srv.AuthorizationCodes[tk.SignatureString()] = sc
	}
	c := &cred{label: e.Q.Tok, str: tk.String(), kind: s.Kind, client: s.Client, user: s.User, scope: s.Scope,
		redir: s.Redir, exp: s.Exp, root: s.Root}
	if s.Status == "used" {
		c.dead = "used"
	}
	w.creds = append(w.creds, c)
	w.byStr[c.str] = c
	w.byLab[c.label] = c
	e.O.Bytes = append(e.O.Bytes, keyPos(c.str, rnd.S.Log))
}

// conf changes what is registered while the server runs.
func (w *world) conf(e *Event) {
	w.t.now = e.Conf
	for id := range w.srv.Clients {
		if _, ok := e.Conf.Clients[w.label(id)]; !ok {
			delete(w.srv.Clients, id)
		}
	}
	for id := range w.srv.Users {
		if _, ok := e.Conf.Users[w.label(id)]; !ok {
			delete(w.srv.Users, id)
		}
	}
	for id, c := range e.Conf.Clients {
		n := oauth2.ServerEntity{Secret: w.str(c.Secret), RedirectURI: w.str(c.Redirect), Confidential: c.Conf}
		if old, ok := w.srv.Clients[w.str(id)]; ok && e.Alt.Seed%2 == 0 {
			*old = n
		} else {
			w.srv.Clients[w.str(id)] = &n
		}
	}
	for id, u := range e.Conf.Users {
		n := oauth2.ServerEntity{Secret: w.str(u.Pass)}
		if old, ok := w.srv.Users[w.str(id)]; ok && e.Alt.Seed%2 == 0 {
			*old = n
		} else {
			w.srv.Users[w.str(id)] = &n
		}
	}
}

// label is the label of a concrete string.
func (w *world) label(s string) string {
	if l, ok := w.labels[s]; ok {
		return l
	}
	return s
}

// snapshot probes every credential: does it open a resource, and what does its
// owner hear about it.
func (w *world) snapshot(e *Event) {
	e.O.Kind = "snap"
	e.Q.Scope = nil
	cs := w.creds
	if len(cs) > 24 {
		cs = cs[len(cs)-24:]
	}
	for _, c := range cs {
		e.Q.Scope = append(e.Q.Scope, c.label)
		r := NullQ("resource")
		r.Tok = c.label
		ev := Event{Q: r, R: r, Alt: Alt{Plain: true}}
		w.perform(&ev)
		if ev.O.Kind == "granted" {
			e.O.Acc = append(e.O.Acc, c.label)
		}
		i := NullQ("introspect")
		owner, known := w.t.cur().Clients[c.client]
		if !known {
			// ask on behalf of an owner that is gone
			w.srv.Clients[w.str(c.client)] = &oauth2.ServerEntity{Secret: "gone", Confidential: true}
			owner.Secret = w.intern("gone")
		}
		i.Tok, i.Client, i.Secret = c.label, c.client, owner.Secret
		ev = Event{Q: i, R: i, Alt: Alt{Plain: true}}
		w.perform(&ev)
		if ev.O.Kind == "info" && ev.O.Active {
			e.O.Act = append(e.O.Act, c.label)
		}
		if !known {
			delete(w.srv.Clients, w.str(c.client))
		}
	}
	e.R = e.Q
}

func sortedKeys(m map[string]CfgClient) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func sortedUsers(m map[string]CfgUser) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
