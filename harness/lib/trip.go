package lib

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"strconv"
	"strings"
	"time"

	"a.verif/h/rnd"
	"github.com/256dpi/oauth2/v2"
)

const endpoint = "http://auth.example.com/oauth2/x"

func (x *run) clientID() string {
	for {
		s := strings.ReplaceAll(x.text(), ":", "")
		if s != "" {
			return s
		}
	}
}

func (x *run) tokenreq() (M, M) {
	q := oauth2.TokenRequest{GrantType: x.c.str("grant"), ClientID: x.clientID()}
	if q.GrantType == "x" {
		q.GrantType = x.text()
	}
	str := func(f string, d *string) {
		if x.c.has(f) {
			*d = x.text()
		}
	}
	str("secret", &q.ClientSecret)
	str("user", &q.Username)
	str("pass", &q.Password)
	str("refresh", &q.RefreshToken)
	str("code", &q.Code)
	if x.c.has("scope") {
		q.Scope = oauth2.Scope(x.scope())
	}
	if x.c.has("redir") {
		q.RedirectURI, _, _ = x.uri(x.r.Intn(3))
	}
	x.keep(&q)
	i := M{"fields": x.pairs(reqPairs(&q))}
	r := M{"ok": false, "fields": []Pair{}}
	req, err := oauth2.BuildTokenRequest(endpoint, q)
	if err != nil {
		return i, r
	}
	sreq, err := received(req)
	if err != nil {
		return i, r
	}
	p, err := oauth2.ParseTokenRequest(sreq)
	if err != nil || p == nil {
		x.Info["error"] = fmt.Sprint(err)
		return i, r
	}
	x.keep(p)
	r["ok"], r["fields"] = true, x.pairs(reqPairs(p))
	return i, r
}

func reqPairs(q *oauth2.TokenRequest) []Pair {
	return []Pair{{"grant", q.GrantType}, {"client", q.ClientID}, {"secret", q.ClientSecret}, {"user", q.Username}, {"pass", q.Password},
		{"refresh", q.RefreshToken}, {"code", q.Code}, {"redir", q.RedirectURI}, {"scope", strings.Join(q.Scope, "\x00 \x00")}}
}

func (x *run) tokreq(intro bool) (M, M) {
	tok, hint, client, secret := x.text(), "", x.clientID(), ""
	if x.c.has("hint") {
		hint = x.pick("access_token", "refresh_token", x.text())
	}
	if x.c.has("secret") {
		secret = x.text()
	}
	i := M{"fields": x.pairs([]Pair{{"token", tok}, {"hint", hint}, {"client", client}, {"secret", secret}})}
	r := M{"ok": false, "fields": []Pair{}}
	var req *http.Request
	var err error
	if intro {
		req, err = oauth2.BuildIntrospectionRequest(endpoint, oauth2.IntrospectionRequest{Token: tok, TokenTypeHint: hint, ClientID: client, ClientSecret: secret})
	} else {
		req, err = oauth2.BuildRevocationRequest(endpoint, oauth2.RevocationRequest{Token: tok, TokenTypeHint: hint, ClientID: client, ClientSecret: secret})
	}
	if err != nil {
		return i, r
	}
	sreq, err := received(req)
	if err != nil {
		return i, r
	}
	if intro {
		p, err := oauth2.ParseIntrospectionRequest(sreq)
		if err == nil && p != nil {
			r["ok"], r["fields"] = true, x.pairs([]Pair{{"token", p.Token}, {"hint", p.TokenTypeHint}, {"client", p.ClientID}, {"secret", p.ClientSecret}})
		}
	} else {
		p, err := oauth2.ParseRevocationRequest(sreq)
		if err == nil && p != nil {
			r["ok"], r["fields"] = true, x.pairs([]Pair{{"token", p.Token}, {"hint", p.TokenTypeHint}, {"client", p.ClientID}, {"secret", p.ClientSecret}})
		}
	}
	return i, r
}

func (x *run) tokenrestrip() (M, M) {
	t, ps := x.tokenResponse()
	if x.c.has("state") {
		t.State = x.text()
		ps = append(ps, Pair{"state", t.State})
	}
	i := M{"fields": x.pairs(ps)}
	w := newRecorder()
	r := M{"ok": false, "fields": []Pair{}}
	if oauth2.WriteTokenResponse(w, t) != nil {
		return i, r
	}
	p, err := oauth2.ParseTokenResponse(w.result(), 1<<20)
	if err == nil && p != nil {
		x.keep(p)
		r["ok"], r["fields"] = true, x.pairs(tokenPairs(p))
	}
	return i, r
}

func (x *run) introrestrip() (M, M) {
	t, ps := x.introspection(x.c.str("grant") == "active")
	i := M{"fields": x.pairs(ps)}
	w := newRecorder()
	r := M{"ok": false, "fields": []Pair{}}
	if oauth2.WriteIntrospectionResponse(w, t) != nil {
		return i, r
	}
	p, err := oauth2.ParseIntrospectionResponse(w.result(), 1<<20)
	if err == nil && p != nil {
		x.keep(p)
		r["ok"], r["fields"] = true, x.pairs(introPairs(p))
	}
	return i, r
}

// wire carries requests of the client to a handler, and keeps what came back.
type wire struct {
	h    http.Handler
	last *recorder
	path string
}

func (t *wire) RoundTrip(req *http.Request) (*http.Response, error) {
	sreq, err := received(req)
	if err != nil {
		return nil, err
	}
	sreq.RemoteAddr = "127.0.0.1:1"
	t.path = sreq.URL.Path
	t.last = newRecorder()
	t.h.ServeHTTP(t.last, sreq)
	res := t.last.result()
	res.Request = req
	return res, nil
}

// live lets the client talk to a server.
func (x *run) live() (M, M) {
	if !x.together {
		rnd.S.Reset(x.seed)
	}
	secret := x.bytes(16)
	allowed := append([]string{"foo"}, x.items(2)...)
	cfg := oauth2.DefaultServerConfig(secret, oauth2.Scope(allowed))
	srv := oauth2.NewServer(cfg)
	cid, csec, uid, upw := x.clientID(), x.text(), x.text(), x.text()
	uri, _, _ := x.uri(x.r.Intn(2))
	srv.Clients[cid] = &oauth2.ServerEntity{Secret: csec, RedirectURI: uri, Confidential: true}
	srv.Clients["someone-else-1"] = &oauth2.ServerEntity{Secret: "other-secret-1", RedirectURI: uri, Confidential: true}
	srv.Users[uid] = &oauth2.ServerEntity{Secret: upw}
	wr := &wire{h: srv}
	ccfg := oauth2.Default("http://auth.example.com")
	if x.r.Intn(2) == 0 {
		ccfg = oauth2.ClientConfig{BaseURI: "http://auth.example.com", TokenEndpoint: "/t/token", IntrospectionEndpoint: "/i/introspect",
			RevocationEndpoint: "/r/revoke", ResponseLimit: 1 << 20}
	}
	ccfg.ResponseLimit = 1 << 20
	cl := oauth2.NewClientWithClient(ccfg, &http.Client{Transport: wr})

	seed := func(kind string, exp time.Duration) string {
		t := oauth2.MustGenerateHS256Token(secret, 16)
		c := &oauth2.ServerCredential{ClientID: cid, Username: uid, ExpiresAt: time.Now().Add(exp), Scope: oauth2.Scope(allowed[:2]), RedirectURI: uri}
		switch kind {
		case "code":
			srv.AuthorizationCodes[t.SignatureString()] = c
		case "refresh":
			srv.RefreshTokens[t.SignatureString()] = c
		default:
			srv.AccessTokens[t.SignatureString()] = c
		}
		return t.String()
	}
	life := time.Hour
	dev := x.c.str("live")
	if dev == "expired" {
		life = -time.Hour
	}
	client, csecret, user, pass, scope := cid, csec, uid, upw, oauth2.Scope(allowed[:1+x.r.Intn(3)])
	switch dev {
	case "client":
		client = "unknown-" + strings.ReplaceAll(x.item(), ":", "")
	case "secret":
		csecret = csec + "x"
	case "user":
		pass = upw + x.text()
	case "scope":
		scope = append(scope, "not-allowed-"+x.item())
	}
	g := x.c.str("grant")
	var out interface{}
	var err error
	none := true
	switch g {
	case "introspect", "revoke":
		kind := x.pick("access", "refresh")
		tok := seed(kind, life)
		hint := ""
		switch dev {
		case "token":
			tok = oauth2.MustGenerateHS256Token(secret, 16).String()
		case "malformed":
			tok = x.text()
		case "hint":
			hint = x.text()
		case "foreign":
			client, csecret = "someone-else-1", "other-secret-1"
		case "good", "used":
			if x.r.Intn(2) == 0 {
				hint = kind + "_token"
			}
		}
		if g == "introspect" {
			res, e := cl.Introspect(oauth2.IntrospectionRequest{Token: tok, TokenTypeHint: hint, ClientID: client, ClientSecret: csecret})
			err = e
			if res != nil {
				none = false
				out = res
			}
		} else {
			err = cl.Revoke(oauth2.RevocationRequest{Token: tok, TokenTypeHint: hint, ClientID: client, ClientSecret: csecret})
		}
	default:
		q := oauth2.TokenRequest{GrantType: g, ClientID: client, ClientSecret: csecret}
		switch g {
		case "password":
			q.Username, q.Password, q.Scope = user, pass, scope
		case "client_credentials":
			q.Scope = scope
		case "authorization_code":
			q.Code, q.RedirectURI = seed("code", life), uri
		case "refresh_token":
			q.RefreshToken = seed("refresh", life)
			if dev == "scope" {
				q.Scope = scope
			}
		}
		switch dev {
		case "token":
			q.Code, q.RefreshToken = oauth2.MustGenerateHS256Token(secret, 16).String(), oauth2.MustGenerateHS256Token(secret, 16).String()
		case "malformed":
			q.Code, q.RefreshToken = x.text(), x.text()
		case "foreign":
			q.ClientID, q.ClientSecret = "someone-else-1", "other-secret-1"
		case "grant":
			q.GrantType = x.text()
		case "hint":
			q.RedirectURI, _, _ = x.uri(2)
		}
		res, e := cl.Authenticate(q)
		if dev == "used" {
			res, e = cl.Authenticate(q)
		}
		err = e
		if res != nil {
			none = false
			out = res
		}
	}
	// what the server said
	i := M{"kind": "none", "status": 0, "fields": []Pair{}, "call": g}
	if wr.last != nil {
		w := wr.last
		x.Info["response"] = strconv.Itoa(w.status) + " " + clip(w.body.String())
		i["status"] = w.status
		doc, _ := object(w.body.Bytes())
		i["kind"] = "good"
		if w.status != 200 {
			i["kind"] = "error"
		}
		if g != "revoke" || w.status != 200 {
			i["fields"] = x.pairs(doc)
		}
	}
	r := M{"ok": err == nil, "oauth": false, "status": 0, "resp": "some", "fields": []Pair{}}
	if none {
		r["resp"] = "none"
	}
	var fs []Pair
	switch t := out.(type) {
	case *oauth2.TokenResponse:
		fs = tokenPairs(t)
	case *oauth2.IntrospectionResponse:
		fs = introPairs(t)
	}
	if oe, ok := err.(*oauth2.Error); ok && oe != nil {
		r["oauth"], r["status"] = true, oe.Status
		fs = errPairs(oe)
	} else if err != nil {
		x.Info["error"] = err.Error()
	}
	r["fields"] = x.pairs(fs)
	return i, r
}

// ---------------------------------------------------------------------------
// the client against arbitrary answers

type body struct {
	data   []byte
	end    error
	with   bool // deliver the error together with the last bytes
	piece  int
	read   int
	closed bool
}

func (b *body) Read(p []byte) (int, error) {
	if len(b.data) == 0 {
		return 0, b.end
	}
	n := len(b.data)
	if b.piece > 0 && n > b.piece {
		n = b.piece
	}
	n = copy(p, b.data[:n])
	b.data = b.data[n:]
	b.read += n
	if len(b.data) == 0 && b.with {
		return n, b.end
	}
	return n, nil
}
func (b *body) Close() error { b.closed = true; return nil }

type canned struct {
	res *http.Response
	err error
}

func (c *canned) RoundTrip(req *http.Request) (*http.Response, error) {
	if c.res != nil {
		c.res.Request = req
	}
	return c.res, c.err
}

var errNet = errors.New("connection reset by peer")

// some chooses among optional fields: usually all.
func (x *run) some(fs ...string) Case {
	l := []interface{}{}
	all := x.r.Intn(2) == 0
	for _, f := range fs {
		if all || x.r.Intn(2) == 0 {
			l = append(l, f)
		}
	}
	return Case{"has": l}
}

// failure is what reading a broken connection may report.
func (x *run) failure() error {
	return []error{errNet, io.ErrUnexpectedEOF, io.ErrClosedPipe, context.Canceled, context.DeadlineExceeded, io.ErrNoProgress,
		fmt.Errorf("read: %w", io.EOF), &net.OpError{Op: "read", Net: "tcp", Err: errNet}, os.ErrDeadlineExceeded}[x.r.Intn(9)]
}

func (x *run) client() (M, M) {
	call, status, kind, ctn, fail := x.c.str("call"), x.c.num("status"), x.c.str("doc"), x.c.str("ct"), x.c.str("fail")
	// the document
	var doc string
	var fields []Pair
	whole1 := 0 // length of the first complete document
	good := func() string {
		if call == "introspect" {
			cc := x.c
			x.c = x.some("scope", "client", "user", "exp", "type", "iat", "nbf", "sub", "aud", "iss", "jti")
			t, ps := x.introspection(x.r.Intn(3) != 0)
			x.c = cc
			fields = ps
			return objectText(x, ps, map[string]bool{"active": true, "exp": true, "iat": true, "nbf": true}, t.Active)
		}
		cc := x.c
		x.c = x.some("scope", "refresh", "expires", "state")
		_, ps := x.tokenResponse()
		x.c = cc
		fields = ps
		return objectText(x, ps, map[string]bool{"expires_in": true}, true)
	}
	switch kind {
	case "good":
		doc = good()
	case "cut":
		doc = good()
		doc = doc[:1+x.r.Intn(len(strings.TrimRight(doc, " \n"))-1)]
	case "garbage":
		doc = x.pick("not json", "{", "{]", "access_token=abc&token_type=bearer", "\x00\x01", "<>", "{'access_token':'a'}", "NaN", "undefined")
	case "trailing":
		doc = good()
		whole1 = len(doc)
		doc += x.pick("x", "{}", "]", "\"", ", {}")
	case "wrongtype":
		if call == "introspect" {
			doc = x.pick(`{"active":"yes"}`, `{"active":true,"scope":["a"]}`, `{"active":1}`, `{"active":true,"exp":"soon"}`, `{"active":true,"scope":{}}`)
		} else {
			doc = x.pick(`{"access_token":5,"token_type":"bearer"}`, `{"access_token":"a","scope":["x"]}`, `{"expires_in":"soon"}`,
				`{"access_token":["a"]}`, `{"access_token":"a","token_type":"bearer","scope":7}`)
		}
		if x.r.Intn(2) == 0 {
			// one member of another type among good ones
			texts := []string{"access_token", "token_type", "refresh_token", "scope", "state"}
			nums := []string{"expires_in"}
			start := `{"access_token":"a","token_type":"bearer","expires_in":7`
			if call == "introspect" {
				texts = []string{"scope", "client_id", "username", "token_type", "sub", "aud", "iss", "jti"}
				nums = []string{"exp", "iat", "nbf"}
				start = `{"active":true,"scope":"foo","client_id":"c","token_type":"access_token"`
			}
			k, v := texts[x.r.Intn(len(texts))], x.pick("5", "true", "[]", `["a"]`, "{}", `{"a":"b"}`, "1.5", "false")
			if x.r.Intn(3) == 0 {
				k, v = nums[x.r.Intn(len(nums))], x.pick(`"5"`, "true", "[]", "{}", "1.5", `""`, "1e400", "99999999999999999999")
			}
			doc = start + "," + quote(k) + ":" + v + "}"
		}
	case "null":
		// JSON, but no object
		doc = x.pick("null", " null", "null\n", "\t null \r\n")
	case "array":
		doc = x.pick(`[]`, `[{"access_token":"a","token_type":"bearer"}]`, `[{"active":true}]`)
	case "string":
		doc = x.pick(`"access_token"`, `5`, `true`, `"active"`)
	case "error":
		cc := x.c
		x.c = Case{"has": []interface{}{"desc", "state", "scope", "uri"}, "name": true, "status": float64(status)}
		_, ps := x.oauthError(x.text)
		x.c = cc
		fields = ps
		doc = objectText(x, ps, nil, true)
	case "errortype":
		doc = x.pick(`{"error":5}`, `{"error":["invalid_grant"]}`, `{"error":{"name":"x"}}`, `{"error":"x","error_description":7}`)
	case "huge":
		doc = good()
		doc = doc[:len(doc)-1] + `,"padding":"` + strings.Repeat("p", 2500+x.r.Intn(5000)) + `"}`
	case "html":
		doc = "<html><body>Gateway</body></html>"
	}
	limit := 2048
	setting := 0
	n := len(doc)
	if whole1 == 0 {
		whole1 = n
	}
	switch x.c.str("limit") {
	case "exact":
		if n > 0 {
			limit, setting = n, n
		}
	case "short":
		if n > 1 {
			limit = 1 + x.r.Intn(whole1-1)
			if x.r.Intn(3) == 0 {
				limit = whole1 - 1
			}
			setting = limit
		}
	case "big":
		limit, setting = 1<<20, 1<<20
	}
	b := &body{data: []byte(doc), end: io.EOF, with: x.r.Intn(2) == 0}
	readok, whole, transport := true, true, true
	t := &canned{}
	switch fail {
	case "early":
		at := 0
		if n > 0 {
			at = x.r.Intn(n)
		}
		b.data, b.end = b.data[:at], x.failure()
		whole = false
		readok = at >= limit
	case "late":
		b.end = x.failure()
		readok = n >= limit
		if n == limit {
			// whether the error is seen at all depends on who looks beyond the limit
			b.end, readok = io.EOF, true
		}
	case "pieces":
		b.piece = 1
	case "transport":
		t.err = errNet
		transport = false
	}
	h := http.Header{}
	ct, ok := map[string]string{"json": "application/json", "jsonutf": "application/json;charset=UTF-8", "upper": "Application/JSON",
		"text": "text/plain; charset=utf-8", "malformed": "application/json; charset", "html": "text/html",
		"problem": "application/problem+json", "xjson": "text/json"}[ctn]
	if ok {
		h.Set("Content-Type", ct)
	}
	if status == 401 && x.r.Intn(2) == 0 {
		h.Set("WWW-Authenticate", "Basic realm=x")
	}
	if t.err == nil {
		t.res = &http.Response{StatusCode: status, Status: strconv.Itoa(status) + " " + http.StatusText(status), Proto: "HTTP/1.1", ProtoMajor: 1,
			ProtoMinor: 1, Header: h, Body: b, ContentLength: -1}
		if x.r.Intn(2) == 0 {
			t.res.ContentLength = int64(n)
		}
	}
	cfg := oauth2.Default("http://auth.example.com")
	cfg.ResponseLimit = int64(setting)
	cl, id := oauth2.NewClientWithClient(cfg, &http.Client{Transport: t}), "c"
	if x.together && setting == 0 {
		cl, id = shared(t)
	}
	none := true
	var err error
	var fs []Pair
	switch call {
	case "token":
		res, e := cl.Authenticate(oauth2.TokenRequest{GrantType: "password", ClientID: id, ClientSecret: "s", Username: "u", Password: "p"})
		err = e
		if res != nil {
			none = false
			fs = tokenPairs(res)
			x.keep(res)
		}
	case "introspect":
		res, e := cl.Introspect(oauth2.IntrospectionRequest{Token: "t", ClientID: id, ClientSecret: "s"})
		err = e
		if res != nil {
			none = false
			fs = introPairs(res)
			x.keep(res)
		}
	case "revoke":
		err = cl.Revoke(oauth2.RevocationRequest{Token: "t", ClientID: id, ClientSecret: "s"})
	}
	x.Info["answer"] = fmt.Sprintf("%d %q limit=%d fail=%s %s", status, ct, limit, fail, clip(doc))
	if err != nil {
		x.Info["error"] = err.Error()
	}
	i := M{"call": call, "status": status, "ctok": ctn == "json" || ctn == "jsonutf" || ctn == "upper", "doc": kind, "readok": readok, "whole": whole,
		"fits": n <= limit, "limit": limit, "transport": transport, "fields": []Pair{},
		"free": status == 200 && call != "revoke" && (kind == "error" || kind == "errortype")}
	if kind == "huge" {
		i["doc"] = "good"
	}
	r := M{"ok": err == nil, "resp": "some", "oauth": false, "status": 0, "named": false, "read": b.read, "closed": b.closed || t.err != nil, "fields": []Pair{}}
	if none {
		r["resp"] = "none"
	}
	if oe, ok := err.(*oauth2.Error); ok && oe != nil {
		r["oauth"], r["status"] = true, oe.Status
		r["named"] = oe.Status == status
		fs = errPairs(oe)
	} else if err != nil {
		r["named"] = strings.Contains(err.Error(), strconv.Itoa(status))
	}
	i["fields"] = x.pairs(fields)
	r["fields"] = x.pairs(fs)
	return i, r
}

// objectText writes an object; raw members are written without quotes.
func objectText(x *run, ps []Pair, raw map[string]bool, _ bool) string {
	var l []string
	for _, k := range x.r.Perm(len(ps)) {
		p := ps[k]
		v := p[1]
		if !raw[p[0]] {
			v = quote(v)
		}
		l = append(l, quote(p[0])+x.pick(":", ": ")+v)
	}
	if x.r.Intn(3) == 0 {
		l = append(l, `"unknown":`+x.pick(`1`, `"x"`, `[1,{"a":null}]`, `{"error":"x"}`))
	}
	return "{" + strings.Join(l, x.pick(",", ", ", ",\n  ")) + "}"
}
