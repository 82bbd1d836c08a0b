//go:build suite

package drv

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/256dpi/oauth2/v2/oauth2test"
)

// Suite is one configuration of the conformance suite together with the server
// it is run against.
type Suite struct {
	ID    int             `json:"id"`
	Seed  int64           `json:"seed"`
	Flags map[string]bool `json:"flags"`
	Dev   int             `json:"dev"`   // deviations per exchange, -1 for all
	Only  []SuiteDev      `json:"only"`  // just these
	Blank bool            `json:"blank"` // leave out fields of the specification

	tr        *Trace
	need      []string
	valid     string // scope strings
	exceeding string
	invalid   string
	prefix    string
	resource  string
	headers   bool
	badTok    string
	badRedir  string
}

// SuiteDev names one deviation: the answer to exchange I is doctored.
type SuiteDev struct {
	I    int    `json:"i"`
	K    string `json:"k"` // class of deviation, as Suite.tla knows it
	Name string `json:"name"`
}

var suiteFlags = []string{"password", "cc", "implicit", "code", "refresh", "introspection", "revocation", "mitigation"}

// draw picks names, secrets and scopes.
func (c *Suite) draw() {
	r := rand.New(rand.NewSource(c.Seed))
	g := &gen{r: r}
	t := &Trace{ID: c.ID, Seed: c.Seed, Profile: "suite", Strings: map[string]string{}}
	perm := func(pool []string, n int, not ...string) []string {
		var out []string
		for _, i := range r.Perm(len(pool)) {
			if len(out) < n && !has(not, pool[i]) {
				out = append(out, pool[i])
			}
		}
		return out
	}
	set := func(l, s string) string { t.Strings[l] = s; return l }
	cl := perm(clientPool, 2, "unknown", "invalid")
	set("c1", cl[0])
	set("c2", cl[1])
	set("k1", "S3cr3t-"+g.rndstr(12))
	set("k2", "S3cr3t-"+g.rndstr(12))
	set("u1", perm(userPool, 1, "invalid", cl[0], cl[1])[0])
	set("p1", "Passw0rd-"+g.rndstr(10))
	rs := perm(redirPool, 3)
	set("r1", rs[0])
	set("r2", rs[1])
	c.badRedir = g.pick("http://invalid.com", rs[2], "https://evil.example/"+g.rndstr(4), rs[0]+"x", "invalid")
	sc := perm(append([]string{"a+b", "x&y", "100%", "%41", "r;w", "a=b&c", "#1", "~/.-_"}, scopePool...), 6, "\"q\"", "invalid", "unknown", "xyz")
	n := 1 + r.Intn(3)
	var labs []string
	for i, s := range sc {
		labs = append(labs, set(fmt.Sprintf("s%d", i), s))
	}
	t.Cfg.Allowed = append([]string(nil), labs[:n+r.Intn(2)]...)
	r.Shuffle(len(t.Cfg.Allowed), func(i, j int) {
		t.Cfg.Allowed[i], t.Cfg.Allowed[j] = t.Cfg.Allowed[j], t.Cfg.Allowed[i]
	})
	valid := labs[:n]
	c.valid = strings.Join(sc[:n], " ")
	c.invalid = sc[5]
	c.exceeding = c.valid + " " + g.pick(sc[5], sc[5], sc[4])
	if g.chance(0.2) {
		c.exceeding = sc[5] + " " + c.valid
	}
	c.need = append([]string(nil), valid[:1+r.Intn(n)]...)
	t.Cfg.AL = 60 + r.Intn(100000)
	t.Cfg.RL = 60 + r.Intn(1000000)
	t.Cfg.CL = 60 + r.Intn(600)
	t.Cfg.TPS = 1
	t.Cfg.KLen = []int{8, 16, 32}[r.Intn(3)]
	t.Cfg.Clients = map[string]CfgClient{
		"c1": {Secret: "k1", Redirect: "r1", Conf: true},
		"c2": {Secret: "k2", Redirect: "r2", Conf: false},
	}
	t.Cfg.Users = map[string]CfgUser{"u1": {Pass: "p1"}}
	t.Secret = []byte("server-secret-" + g.rndstr(8))
	c.prefix = g.pick("/oauth2", "/oauth2", "/auth/v2", "", "/token/revoke")
	c.resource = g.pick("/api/protected", "/api/protected", "/me", "/r?x=1")
	c.headers = g.chance(0.4)
	c.badTok = g.pick("invalid", "invalid", "a.b", "x", "invalid.", ".invalid", g.rndstr(43)+"."+g.rndstr(43), "0")
	c.tr = t
}

// suiteServer is the server the suite talks to.
type suiteServer struct {
	c    *Suite
	w    *world
	ev   []Event // seeds, then exchanges
	n    int     // exchanges so far
	dev  *SuiteDev
	devO *O
	at   func() // called when the doctored answer is known
}

func (c *Suite) server() (*suiteServer, *oauth2test.Spec) {
	tr := *c.tr
	tr.Strings = map[string]string{}
	for k, v := range c.tr.Strings {
		tr.Strings[k] = v
	}
	w := newWorld(&tr)
	for _, l := range literals {
		w.labels[l] = l
	}
	w.anon = 1000
	s := &suiteServer{c: c, w: w}
	seed := func(kind, user string, scope []string, exp int, redir string) string {
		if scope == nil {
			scope = []string{}
		}
		w.nextID++
		e := Event{ID: w.nextID, Q: NullQ("seed"), O: NullO()}
		e.Q.Tok = fmt.Sprintf("T%d%c", e.ID, kind[0])
		e.Q.Cred = &Seeded{Kind: kind, Client: "c1", User: user, Scope: scope, Exp: exp, Redir: redir, Status: "live"}
		w.seed(&e)
		e.O.Kind = "seeded"
		e.R = e.Q
		s.ev = append(s.ev, e)
		return w.byLab[e.Q.Tok].str
	}
	var valid []string
	for _, x := range strings.Split(c.valid, " ") {
		valid = append(valid, w.labels[x])
	}
	r := rand.New(rand.NewSource(c.Seed + 1))
	sp := oauth2test.Default(s)
	sp.TokenEndpoint = c.prefix + "/token"
	sp.AuthorizeEndpoint = c.prefix + "/authorize"
	sp.RevocationEndpoint = c.prefix + "/revoke"
	sp.IntrospectionEndpoint = c.prefix + "/introspect"
	if !c.Flags["introspection"] {
		sp.IntrospectionEndpoint = ""
	}
	if !c.Flags["revocation"] {
		sp.RevocationEndpoint = ""
	}
	sp.ProtectedResource = c.resource
	sp.PasswordGrantSupport = c.Flags["password"]
	sp.ClientCredentialsGrantSupport = c.Flags["cc"]
	sp.ImplicitGrantSupport = c.Flags["implicit"]
	sp.AuthorizationCodeGrantSupport = c.Flags["code"]
	sp.RefreshTokenGrantSupport = c.Flags["refresh"]
	sp.CodeReplayMitigation = c.Flags["mitigation"]
	sp.ConfidentialClientID = w.str("c1")
	sp.ConfidentialClientSecret = w.str("k1")
	sp.PublicClientID = w.str("c2")
	sp.ResourceOwnerUsername = w.str("u1")
	sp.ResourceOwnerPassword = w.str("p1")
	sp.InvalidScope, sp.ValidScope, sp.ExceedingScope = c.invalid, c.valid, c.exceeding
	sp.ExpectedExpiresIn = c.tr.Cfg.AL
	sp.InvalidToken = c.badTok
	sp.UnknownToken = w.makeUnk("fresh", "", r)
	sp.ValidToken = seed("access", "u1", valid, 3600, "")
	sp.ExpiredToken = seed("access", "u1", valid, -3600, "")
	sp.InsufficientToken = seed("access", "u1", nil, 3600, "")
	sp.InvalidRedirectURI = c.badRedir
	sp.PrimaryRedirectURI, sp.SecondaryRedirectURI = escaped(w.str("r1")), escaped(w.str("r2"))
	sp.InvalidRefreshToken = c.badTok
	sp.UnknownRefreshToken = w.makeUnk("fresh", "", r)
	sp.ValidRefreshToken = seed("refresh", "u1", valid, 3600, "")
	sp.ExpiredRefreshToken = seed("refresh", "u1", valid, -3600, "")
	sp.InvalidAuthorizationCode = c.badTok
	sp.UnknownAuthorizationCode = w.makeUnk("fresh", "", r)
	sp.ExpiredAuthorizationCode = seed("code", "u1", valid, -3600, "r1")
	if c.headers {
		sp.InvalidAuthorizationHeaders = map[string]string{"X-Owner": url.QueryEscape(w.str("u1")) + ":invalid"}
		sp.ValidAuthorizationHeaders = map[string]string{"X-Owner": url.QueryEscape(w.str("u1")) + ":" + url.QueryEscape(w.str("p1"))}
	} else {
		sp.InvalidAuthorizationParams = map[string]string{"username": w.str("u1"), "password": "invalid"}
		sp.ValidAuthorizationParams = map[string]string{"username": w.str("u1"), "password": w.str("p1")}
	}
	return s, sp
}

// escaped is a redirect URI as the library wants to be told it.
func escaped(u string) string {
	if strings.ContainsAny(u, "%+") {
		return url.QueryEscape(u)
	}
	return u
}

// request reads an exchange the way the specification does.
func (s *suiteServer) request(r *http.Request) Q {
	w := s.w
	form := func(k string) string { return w.intern(r.PostForm.Get(k)) }
	token := func(x string) string {
		c := w.classify(x)
		if c == "alias" {
			return "!bad"
		}
		return c
	}
	if r.URL.RequestURI() == s.c.resource {
		q := NullQ("resource")
		q.Need = s.c.need
		h := r.Header.Get("Authorization")
		switch {
		case h == "":
			q.Hdr = "none"
		case !strings.HasPrefix(h, "Bearer ") || len(h) == len("Bearer "):
			q.Hdr = "bad"
		default:
			q.Tok = token(h[len("Bearer "):])
		}
		return q
	}
	op := r.URL.Path[strings.LastIndex(r.URL.Path, "/")+1:]
	q := NullQ(op)
	switch op {
	case "token", "authorize", "introspect", "revoke":
	default:
		q.Op = "other"
		return q
	}
	q.Method = r.Method
	if id, pw, ok := r.BasicAuth(); ok {
		q.Client, q.Secret = w.intern(id), w.intern(pw)
	} else {
		q.CAuth = "body"
		q.Client, q.Secret = form("client_id"), form("client_secret")
		if op != "token" {
			q.CAuth = "none"
		}
	}
	q.State = form("state")
	if raw := r.PostForm.Get("redirect_uri"); badRedirect(raw) {
		q.Redir = "!bad"
	} else if u, err := url.QueryUnescape(raw); err == nil {
		q.Redir = w.intern(u)
	}
	q.Scope = w.splitScope(r.PostForm.Get("scope"))
	q.User, q.Pass = form("username"), form("password")
	switch op {
	case "authorize":
		q.Client, q.Secret = form("client_id"), ""
		q.RType = form("response_type")
	case "token":
		q.Grant = form("grant_type")
		q.Tok = token(r.PostForm.Get("code"))
		if q.Grant == "refresh_token" {
			q.Tok = token(r.PostForm.Get("refresh_token"))
		}
	default:
		q.Tok = token(r.PostForm.Get("token"))
		q.Hint = form("token_type_hint")
	}
	return q
}

func (s *suiteServer) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
	progress()
	s.n++
	w := s.w
	if o := r.Header.Get("X-Owner"); o != "" && r.PostForm != nil {
		if a, b, ok := strings.Cut(o, ":"); ok {
			u, _ := url.QueryUnescape(a)
			p, _ := url.QueryUnescape(b)
			r.PostForm.Set("username", u)
			r.PostForm.Set("password", p)
		}
	}
	e := Event{ID: 1000 + s.n, Q: s.request(r), O: NullO()}
	e.R = e.Q
	rec := newRecorder()
	granted := false
	before := w.stored()
	if e.Q.Op == "resource" {
		if granted = w.srv.Authorize(rec, r, w.strs(s.c.need)); granted {
			_, _ = rec.Write([]byte("OK"))
		}
	} else {
		w.srv.ServeHTTP(rec, r)
	}
	for i, n := range w.stored() {
		if n > before[i] {
			e.O.Grew = true
		}
	}
	if s.dev != nil && s.n == s.dev.I {
		// what the answer would have been belongs to the world, too
		e.O = s.read(e, rec, granted)
		if d := s.doctor(&e, r, rec); d != nil {
			rec = d
			f := e
			f.ID = 900000
			o := s.read(f, rec, e.Q.Op == "resource" && rec.status == 200 && rec.body.String() == "OK")
			if e.Q.Op == "resource" && o.Kind == "error" && rec.body.Len() > 0 {
				o.Kind = "weird"
			}
			s.devO = &o
			s.at()
		}
	} else {
		e.O = s.read(e, rec, granted)
	}
	s.ev = append(s.ev, e)
	h := rec.snap
	if h == nil {
		h = rec.hdr
	}
	for k, v := range h {
		rw.Header()[k] = v
	}
	if rec.status != 0 {
		rw.WriteHeader(rec.status)
	}
	_, _ = rw.Write(rec.body.Bytes())
}

// read abstracts an answer.
func (s *suiteServer) read(e Event, rec *recorder, granted bool) O {
	grew := e.O.Grew
	e.O = NullO()
	s.w.classifyResponse(&e, rec, granted)
	e.O.Grew = grew
	if e.O.IExp != 0 {
		// the clock runs: a few seconds do not count
		if c := s.w.byLab[e.Q.Tok]; c != nil && e.O.IExp >= c.exp && e.O.IExp <= c.exp+30 {
			e.O.IExp = c.exp
		}
	}
	e.O.Bytes = nil
	return e.O
}

var suiteCodes = []string{"invalid_request", "invalid_client", "invalid_grant", "invalid_scope", "access_denied", "server_error",
	"unsupported_token_type", "unauthorized_client", "invalid_token", "insufficient_scope"}

// deviations lists the ways in which the answer of an exchange can be wrong,
// and some in which it can be right but written differently.
func deviations(e *Event) []SuiteDev {
	var l []SuiteDev
	add := func(k string, names ...string) {
		for _, n := range names {
			l = append(l, SuiteDev{K: k, Name: n})
		}
	}
	codes := func(own string) {
		for _, c := range suiteCodes {
			if c != own {
				add("code", "code="+c)
			}
		}
		if own != "" {
			add("code", "code="+own+"s", "code="+own[:len(own)-1], "code="+strings.ToUpper(own), "code="+own+" ")
		}
		add("code", "code=", "nocode")
	}
	statuses := func(own int, some ...int) {
		for _, n := range some {
			if n != own {
				add("status", fmt.Sprintf("status=%d", n))
			}
		}
	}
	states := func(own string) {
		add("state", "state=", "state=other", "state-short", "state-long", "state-upper", "nostate")
	}
	o := &e.O
	add("same", "same-header")
	switch {
	case e.Q.Op == "authorize" && e.Q.Method == "GET":
		add("gone", "status=404")
	case o.Kind == "error" && o.Via == "json":
		add("accept", "accept")
		if e.Q.Op == "introspect" {
			add("accept", "accept-inactive")
		}
		codes(o.Err)
		statuses(o.Status, 200, 400, 401, 403, 404, 500)
		add("same", "same-pretty", "same-extra", "same-order")
	case o.Kind == "error" && (o.Via == "query" || o.Via == "fragment"):
		add("accept", "accept")
		codes(o.Err)
		statuses(o.Status, 200, 400, 401)
		states(o.State)
		add("via", "otherplace", "direct")
		add("same", "same-param")
	case e.Q.Op == "resource" && o.Kind == "error":
		add("accept", "accept", "accept-challenge")
		if o.Err != "" {
			codes(o.Err)
		}
		statuses(o.Status, 200, 400, 401, 403, 404, 500)
		add("body", "body")
		add("same", "same-challenge")
	case o.Kind == "tokens":
		add("refuse", "refuse=invalid_request", "refuse=access_denied", "refuse=server_error")
		add("scope", "scope=more", "scope=less", "scope=other", "scope=cut", "scope=upper", "noscope", "scope=")
		add("expiry", "expires=+1", "expires=-1", "expires=0", "expires=double", "noexpires")
		add("token", "notoken", "token=")
		add("type", "type=mac", "notype")
		if o.Via == "json" {
			statuses(o.Status, 400, 401, 500)
			add("expiry", "expires=string")
			add("token", "norefresh", "refresh=")
			add("same", "same-pretty", "same-extra", "same-order")
		} else {
			statuses(o.Status, 200, 400)
			states(o.State)
			add("token", "addrefresh")
			add("via", "otherplace", "direct")
			add("same", "same-param")
		}
	case o.Kind == "code":
		add("refuse", "refuse=access_denied", "refuse=server_error", "direct-refuse")
		statuses(o.Status, 200, 400)
		states(o.State)
		add("token", "nocode", "code=")
		add("via", "otherplace", "direct")
		add("same", "same-param")
	case o.Kind == "info":
		add("active", "flip")
		if o.Active {
			add("active", "noactive", "active=string")
			add("type", "ttype=other", "nottype")
		}
		add("refuse", "refuse=invalid_request", "refuse=invalid_client")
		statuses(o.Status, 400, 401, 404, 500)
		add("same", "same-pretty", "same-extra", "same-order")
	case o.Kind == "ok":
		add("refuse", "refuse=invalid_request", "refuse=invalid_client", "refuse=server_error")
		statuses(o.Status, 400, 401, 404, 500, 503)
	case o.Kind == "granted":
		add("refuse", "refuse=invalid_token", "refuse=insufficient_scope", "refuse=invalid_request")
		statuses(o.Status, 401, 403, 404, 500)
	}
	return l
}

func copyRec(r *recorder) *recorder {
	d := newRecorder()
	h := r.snap
	if h == nil {
		h = r.hdr
	}
	d.hdr = h.Clone()
	d.status = r.status
	d.body.Write(r.body.Bytes())
	return d
}

type member struct {
	k string
	v interface{}
}

// doctor writes the wrong (or differently written) answer.
func (s *suiteServer) doctor(e *Event, r *http.Request, orig *recorder) *recorder {
	d := copyRec(orig)
	name := s.dev.Name
	arg := ""
	if i := strings.IndexByte(name, '='); i >= 0 {
		name, arg = name[:i], name[i+1:]
	}
	form := r.PostForm
	errStatus := map[string]int{"invalid_client": 401, "access_denied": 403, "server_error": 500, "invalid_token": 401, "insufficient_scope": 403}
	status := func(c string) int {
		if n, ok := errStatus[c]; ok {
			return n
		}
		return 400
	}
	fresh := func() string { return s.w.makeUnk("fresh", "", rand.New(rand.NewSource(int64(s.n)))) }
	setBody := func(b string) {
		d.body.Reset()
		d.body.WriteString(b)
		d.hdr.Del("Content-Length")
	}
	setJSON := func(st int, ms []member) {
		var l []string
		for _, m := range ms {
			k, _ := json.Marshal(m.k)
			v, _ := json.Marshal(m.v)
			l = append(l, string(k)+":"+string(v))
		}
		d.hdr.Set("Content-Type", "application/json;charset=UTF-8")
		d.status = st
		setBody("{" + strings.Join(l, ",") + "}")
	}
	clean := func() {
		d.hdr = http.Header{}
	}
	refuseJSON := func(c string) {
		clean()
		if status(c) == 401 {
			d.hdr.Set("WWW-Authenticate", `Basic realm="OAuth2"`)
		}
		setJSON(status(c), []member{{"error", c}})
	}
	members := func() []member {
		var m map[string]json.RawMessage
		if json.Unmarshal(orig.body.Bytes(), &m) != nil {
			return nil
		}
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var l []member
		for _, k := range ks {
			l = append(l, member{k, m[k]})
		}
		return l
	}
	edit := func(k string, v interface{}) {
		var l []member
		for _, m := range members() {
			if m.k != k {
				l = append(l, m)
			} else if v != nil {
				l = append(l, member{k, v})
			}
		}
		setJSON(d.status, l)
	}
	loc := func() (string, url.Values, url.Values) {
		base, frag, _ := strings.Cut(orig.hdr.Get("Location"), "#")
		u, _ := url.Parse(base)
		q := u.Query()
		f, _ := url.ParseQuery(frag)
		u.RawQuery = ""
		return u.String(), q, f
	}
	setLoc := func(base string, q, f url.Values) {
		x := base
		if len(q) > 0 {
			x += "?" + q.Encode()
		}
		if len(f) > 0 {
			x += "#" + f.Encode()
		}
		d.hdr.Set("Location", x)
	}
	// param changes one parameter of a redirect
	param := func(k string, v *string) {
		b, q, f := loc()
		p := q
		if e.O.Via == "fragment" {
			p = f
		}
		if v == nil {
			p.Del(k)
		} else {
			p.Set(k, *v)
		}
		setLoc(b, q, f)
	}
	// field changes one member of the answer, wherever it is
	field := func(k string, v *string) {
		if e.O.Via == "json" {
			if v == nil {
				edit(k, nil)
			} else {
				edit(k, *v)
			}
			return
		}
		param(k, v)
	}
	own := func() (base string, q url.Values) {
		u, err := url.Parse(s.w.str("r1"))
		if err != nil {
			return s.w.str("r1"), url.Values{}
		}
		q = u.Query()
		u.RawQuery = ""
		return u.String(), q
	}
	redirect := func(frag bool, ps url.Values) {
		b, q := own()
		clean()
		d.status = 303
		setBody("")
		f := url.Values{}
		for k, v := range ps {
			if frag {
				f[k] = v
			} else {
				q[k] = v
			}
		}
		setLoc(b, q, f)
	}
	accept := func() {
		switch e.Q.Op {
		case "token":
			clean()
			sc := form.Get("scope")
			if sc == "" {
				sc = s.c.valid
			}
			setJSON(200, []member{{"token_type", "bearer"}, {"access_token", fresh()}, {"refresh_token", fresh()},
				{"expires_in", s.c.tr.Cfg.AL}, {"scope", sc}})
		case "authorize":
			ps := url.Values{}
			if st := form.Get("state"); st != "" {
				ps.Set("state", st)
			}
			if form.Get("response_type") == "token" {
				ps.Set("token_type", "bearer")
				ps.Set("access_token", fresh())
				ps.Set("expires_in", fmt.Sprint(s.c.tr.Cfg.AL))
				ps.Set("scope", form.Get("scope"))
				redirect(true, ps)
			} else {
				ps.Set("code", fresh())
				redirect(false, ps)
			}
		case "introspect":
			clean()
			setJSON(200, []member{{"active", true}, {"client_id", s.w.str("c1")}, {"scope", s.c.valid}, {"token_type", "access_token"},
				{"exp", time.Now().Unix() + 3600}})
		case "revoke":
			clean()
			d.status = 200
			setBody("")
		case "resource":
			clean()
			d.status = 200
			setBody("OK")
		}
	}
	switch name {
	case "same-header":
		d.hdr.Set("X-Request-Id", "1")
	case "same-pretty":
		b, _ := json.MarshalIndent(json.RawMessage(orig.body.Bytes()), "", "  ")
		setBody(string(b) + "\n")
	case "same-extra":
		setJSON(d.status, append([]member{{"x_note", map[string]interface{}{"error": "none", "active": nil}}}, members()...))
	case "same-order":
		l := members()
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
		setJSON(d.status, l)
	case "same-param":
		v := "https://issuer.example/?a=b&state=no"
		param("iss", &v)
	case "same-challenge":
		h := d.hdr.Get("WWW-Authenticate")
		p := strings.Split(strings.TrimPrefix(h, "Bearer "), ", ")
		for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
			p[i], p[j] = p[j], p[i]
		}
		d.hdr.Set("WWW-Authenticate", "Bearer "+strings.Join(append(p, `x_note="a=b"`), ", "))
	case "status":
		fmt.Sscan(arg, &d.status)
	case "accept":
		accept()
	case "accept-inactive":
		clean()
		setJSON(200, []member{{"active", false}})
	case "accept-challenge":
		h := d.hdr.Clone()
		accept()
		d.hdr = h
	case "code":
		if e.O.Kind == "code" {
			param("code", &arg)
		} else if e.Q.Op == "resource" {
			d.hdr.Set("WWW-Authenticate", strings.Replace(d.hdr.Get("WWW-Authenticate"), `error="`+e.O.Err+`"`, `error="`+arg+`"`, 1))
		} else {
			field("error", &arg)
		}
	case "nocode":
		if e.O.Kind == "code" {
			param("code", nil)
		} else if e.Q.Op == "resource" {
			d.hdr.Set("WWW-Authenticate", `Bearer realm="OAuth2"`)
		} else {
			field("error", nil)
		}
	case "state":
		if arg == "" {
			param("state", &arg)
		} else {
			param("state", &arg)
		}
	case "nostate":
		param("state", nil)
	case "state-short", "state-long", "state-upper":
		st := form.Get("state")
		switch {
		case st == "":
			st = "x"
		case name == "state-short":
			st = st[:len(st)-1]
		case name == "state-long":
			st += "z"
		default:
			st = strings.ToUpper(st)
		}
		param("state", &st)
	case "otherplace":
		b, q, f := loc()
		_, reg := own()
		if e.O.Via == "fragment" {
			for k, v := range f {
				q[k] = v
			}
			setLoc(b, q, nil)
		} else {
			for k, v := range q {
				if _, ok := reg[k]; !ok {
					f[k] = v
				}
			}
			setLoc(b, reg, f)
		}
	case "direct":
		_, q, f := loc()
		var l []member
		p := q
		if e.O.Via == "fragment" {
			p = f
		}
		for k, v := range p {
			l = append(l, member{k, v[0]})
		}
		clean()
		st := 200
		if e.O.Kind == "error" {
			st = 400
		}
		setJSON(st, l)
	case "direct-refuse":
		refuseJSON("invalid_request")
	case "refuse":
		switch {
		case e.Q.Op == "resource":
			clean()
			d.status = status(arg)
			d.hdr.Set("WWW-Authenticate", `Bearer error="`+arg+`", realm="OAuth2"`)
			setBody("")
		case e.Q.Op == "authorize":
			ps := url.Values{"error": {arg}}
			if st := form.Get("state"); st != "" {
				ps.Set("state", st)
			}
			redirect(e.O.Via == "fragment", ps)
		default:
			refuseJSON(arg)
		}
	case "scope":
		v := s.c.valid
		switch arg {
		case "more":
			v += " " + s.c.invalid
		case "less":
			v = strings.Join(strings.Split(v, " ")[1:], " ")
		case "other":
			v = s.c.invalid
		case "cut":
			v = v[:len(v)-1]
		case "upper":
			if u := strings.ToUpper(v); u != v {
				v = u
			} else {
				v = strings.ToLower(v) + "x"
			}
		case "":
			v = ""
		}
		field("scope", &v)
	case "noscope":
		field("scope", nil)
	case "expires":
		n := s.c.tr.Cfg.AL
		switch arg {
		case "+1":
			n++
		case "-1":
			n--
		case "0":
			n = 0
		case "double":
			n *= 2
		}
		if e.O.Via != "json" {
			x := fmt.Sprint(n)
			param("expires_in", &x)
		} else if arg == "string" {
			edit("expires_in", fmt.Sprint(n))
		} else {
			edit("expires_in", n)
		}
	case "noexpires":
		field("expires_in", nil)
	case "token":
		field("access_token", &arg)
	case "notoken":
		field("access_token", nil)
	case "refresh":
		field("refresh_token", &arg)
	case "norefresh":
		field("refresh_token", nil)
	case "addrefresh":
		x := fresh()
		param("refresh_token", &x)
	case "type":
		field("token_type", &arg)
	case "notype":
		field("token_type", nil)
	case "flip":
		if e.O.Active {
			setJSON(200, []member{{"active", false}})
		} else {
			setJSON(200, []member{{"active", true}, {"client_id", s.w.str("c1")}, {"scope", s.c.valid}, {"token_type", "access_token"},
				{"exp", time.Now().Unix() + 3600}})
		}
	case "noactive":
		edit("active", nil)
	case "active":
		edit("active", "true")
	case "ttype":
		v := "refresh_token"
		if e.O.IType == v {
			v = "access_token"
		}
		edit("token_type", v)
	case "nottype":
		edit("token_type", nil)
	case "body":
		setBody("OK")
	default:
		return nil
	}
	d.snap = d.hdr.Clone()
	return d
}

// run runs the suite once and tells whether it passed.
func (s *suiteServer) run(t *testing.T, sp *oauth2test.Spec) (pass, stopped bool) {
	pass = t.Run("suite", func(t *testing.T) {
		t.Run("inner", func(t *testing.T) {
			defer func() {
				if v := recover(); v != nil {
					stopped = true
					t.Errorf("panic: %v", v)
				}
			}()
			oauth2test.Run(t, sp)
		})
	})
	return
}

var suiteFields = []string{"Handler", "TokenEndpoint", "AuthorizeEndpoint", "ProtectedResource", "ConfidentialClientID",
	"ConfidentialClientSecret", "PublicClientID", "InvalidScope", "ValidScope", "ExceedingScope", "InvalidToken", "ValidToken",
	"UnknownToken", "ExpiredToken", "ResourceOwnerUsername", "ResourceOwnerPassword", "InvalidRedirectURI", "PrimaryRedirectURI",
	"SecondaryRedirectURI", "InvalidRefreshToken", "UnknownRefreshToken", "ValidRefreshToken", "ExpiredRefreshToken",
	"InvalidAuthorizationCode", "UnknownAuthorizationCode", "ExpiredAuthorizationCode", "InvalidAuthorization", "ValidAuthorization"}

func blank(sp *oauth2test.Spec, f string) {
	v := reflect.ValueOf(sp).Elem()
	for i := 0; i < v.NumField(); i++ {
		n := v.Type().Field(i).Name
		if n == f || n == f+"Params" || n == f+"Headers" {
			v.Field(i).Set(reflect.Zero(v.Field(i).Type()))
		}
	}
}

// TestSuite runs the conformance suite as DRV_IN says. Every run is announced
// before and reported after it; a run that ends the process has failed.
func TestSuite(t *testing.T) {
	if os.Getenv("DRV_MODE") != "suite" {
		t.Skip()
	}
	skip := envInt("DRV_SKIP", 0)
	dead := map[string]bool{} // runs that ended the process
	for _, d := range strings.Split(os.Getenv("DRV_DEAD"), ",") {
		dead[d] = true
	}
	in, err := os.Open(os.Getenv("DRV_IN"))
	if err != nil {
		t.Fatal(err)
	}
	ff, err := os.OpenFile(os.Getenv("DRV_OUT"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	say := func(v map[string]interface{}) {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		if _, err := ff.Write(append(b, '\n')); err != nil {
			panic(err)
		}
	}
	k := 0
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		c := &Suite{}
		if err := json.Unmarshal(sc.Bytes(), c); err != nil {
			t.Fatal(err)
		}
		c.draw()
		s, sp := c.server()
		k++
		told := k <= skip
		if !told {
			say(map[string]interface{}{"x": "begin", "k": k, "case": c.ID})
		}
		if dead[fmt.Sprint(k)] {
			continue // with this configuration there is nothing to doctor
		}
		pass, _ := s.run(t, sp)
		if !told {
			var evs []interface{}
			for _, e := range s.ev {
				evs = append(evs, map[string]interface{}{"q": sparse(e.R, NullQ("")), "o": sparse(e.O, NullO())})
			}
			say(map[string]interface{}{"x": "end", "k": k, "case": c.ID, "pass": pass, "flags": c.Flags, "cfg": c.tr.Cfg, "ev": evs,
				"seeds": len(s.ev) - s.n, "strings": s.w.t.Strings})
		}
		devs := c.Only
		if devs == nil {
			r := rand.New(rand.NewSource(c.Seed + 7))
			for _, e := range s.ev {
				if e.ID <= 1000 {
					continue
				}
				l := deviations(&e)
				r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
				if c.Dev >= 0 && len(l) > c.Dev {
					l = l[:c.Dev]
				}
				for _, d := range l {
					d.I = e.ID - 1000
					devs = append(devs, d)
				}
			}
		}
		for i := range devs {
			k++
			if k <= skip {
				continue
			}
			s, sp := c.server()
			s.dev = &devs[i]
			s.at = func() {
				say(map[string]interface{}{"x": "begin", "k": k, "case": c.ID, "i": devs[i].I, "kind": devs[i].K, "name": devs[i].Name,
					"o": sparse(*s.devO, NullO())})
			}
			pass, _ := s.run(t, sp)
			if s.devO != nil {
				say(map[string]interface{}{"x": "end", "k": k, "case": c.ID, "pass": pass})
			}
		}
		if c.Blank {
			for _, f := range suiteFields {
				k++
				if k <= skip {
					continue
				}
				say(map[string]interface{}{"x": "begin", "k": k, "case": c.ID, "blank": f})
				_, sp := c.server()
				blank(sp, f)
				_, stopped := s.run(t, sp)
				say(map[string]interface{}{"x": "end", "k": k, "case": c.ID, "blank": f, "stopped": stopped})
			}
		}
	}
	say(map[string]interface{}{"x": "done"})
	ff.Close()
	os.Exit(0)
}
