package drv

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"mime/multipart"
	"net/http"
	"net/url"
	"strings"

	"github.com/256dpi/oauth2/v2"
)

type field struct{ name, key, value string } // name: field of Q, key: parameter

var errBody = errors.New("body broke off")

// faultBody delivers some bytes of the body and then fails.
type faultBody struct {
	data []byte
	left int
	hit  *bool
	err  error
}

func (b *faultBody) Read(p []byte) (int, error) {
	if b.left <= 0 {
		*b.hit = true
		return 0, b.err
	}
	n := copy(p, b.data)
	if n > b.left {
		n = b.left
	}
	if n == 0 {
		*b.hit = true
		return 0, b.err
	}
	b.data = b.data[n:]
	b.left -= n
	return n, nil
}
func (b *faultBody) Close() error { return nil }

// chunkBody delivers the body in small pieces.
type chunkBody struct {
	data []byte
	r    *rand.Rand
	gate func()
	once bool // only the first read is a point to switch at
}

func (b *chunkBody) Read(p []byte) (int, error) {
	if b.gate != nil {
		b.gate()
		if b.once {
			b.gate = nil
		}
	}
	if len(b.data) == 0 {
		return 0, io.EOF
	}
	n := 1 + b.r.Intn(40)
	if n > len(b.data) {
		n = len(b.data)
	}
	n = copy(p, b.data[:n])
	b.data = b.data[n:]
	return n, nil
}
func (b *chunkBody) Close() error { return nil }

// request is a concrete request.
type request struct {
	r    *http.Request
	need oauth2.Scope
	body *faultBody
	hit  bool
	tok  string // the token as it is written
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// concretize writes the abstract request q as an HTTP request. Everything q
// does not determine is chosen by a.Seed.
func (w *world) concretize(q *Q, a *Alt) *request {
	r := rand.New(rand.NewSource(a.Seed))
	pick := func(l ...string) string {
		if a.Plain {
			return l[0]
		}
		return l[r.Intn(len(l))]
	}
	tok := w.present(q, a, r)

	if q.Op == "resource" {
		return w.resourceRequest(q, a, r, tok, pick)
	}

	// path
	path := q.Op
	switch q.Op {
	case "other":
		if a.Mode == "raw" {
			path = "/" + string(a.Text)
			break
		}
		path = pick("/oauth2/unknown", "/", "", "/token/", "/authorize/x", "/oauth2/tokens", "/Token", "/oauth2", "/revoke/introspects",
			"/.token", "/token.json", "/xtoken", "/authorize2", "/oauth2/ token")
	default:
		path = pick("/oauth2/", "/", "/a/b/c/", "//", "/token/", "/oauth2/authorize/", "/revoke/../", "/introspect/") + q.Op
	}

	// scope
	scope := strings.Join(w.strs(q.Scope), " ")
	if !a.Plain {
		switch r.Intn(6) {
		case 0:
			scope = " " + scope
		case 1:
			scope = scope + "  "
		case 2:
			scope = strings.Replace(scope, " ", "   ", -1)
		}
	}

	// redirect URI: the library expects it to be escaped once more
	redir := ""
	if q.Redir == "!bad" {
		redir = a.Redir
	} else if q.Redir != "" {
		redir = w.str(q.Redir)
		plain := !strings.ContainsAny(redir, "%+")
		if !plain || pick("y", "n") == "y" {
			redir = url.QueryEscape(redir)
		}
	}

	var fs []field
	add := func(name, key, value string) {
		if value != "" {
			fs = append(fs, field{name, key, value})
		}
	}
	switch q.Op {
	case "authorize", "other":
		add("rtype", "response_type", w.str(q.RType))
		add("client", "client_id", w.str(q.Client))
		add("redir", "redirect_uri", redir)
		add("scope", "scope", scope)
		add("state", "state", w.str(q.State))
		add("user", "username", w.str(q.User))
		add("pass", "password", w.str(q.Pass))
	case "token":
		add("grant", "grant_type", w.str(q.Grant))
		if q.CAuth == "body" {
			add("client", "client_id", w.str(q.Client))
			add("secret", "client_secret", w.str(q.Secret))
		}
		add("user", "username", w.str(q.User))
		add("pass", "password", w.str(q.Pass))
		add("scope", "scope", scope)
		add("redir", "redirect_uri", redir)
		if w.str(q.Grant) == oauth2.RefreshTokenGrantType {
			add("tok", "refresh_token", tok)
		} else if w.str(q.Grant) == oauth2.AuthorizationCodeGrantType {
			add("tok", "code", tok)
		} else {
			add("tok", pick("code", "refresh_token"), tok)
		}
	case "introspect", "revoke":
		add("tok", "token", tok)
		add("hint", "token_type_hint", w.str(q.Hint))
		if q.CAuth == "body" {
			add("client", "client_id", w.str(q.Client))
			add("secret", "client_secret", w.str(q.Secret))
		}
	}

	// place the parameters
	body, query := url.Values{}, url.Values{}
	for _, f := range fs {
		if q.Method == "GET" || has(q.QF, f.name) {
			query.Set(f.key, f.value)
		} else {
			body.Set(f.key, f.value)
		}
	}
	// decoys: other values in the query for parameters of the body
	du, dp := w.anyUser(r)
	for _, d := range q.Deco {
		for _, f := range fs {
			if f.name == d {
				v := w.decoy(f, r)
				if f.name == "user" && a.Seed%2 == 0 && du != f.value {
					// a resource owner that exists
					v = du
				}
				if f.name == "pass" && a.Seed%2 == 0 && dp != f.value {
					v = dp
				}
				if a.Seed%3 == 0 {
					// right after the first, which is the one that counts
					body.Add(f.key, v)
				} else {
					query.Set(f.key, v)
				}
			}
		}
	}
	// parameters without a meaning here
	if !a.Plain && r.Intn(3) == 0 {
		body.Set(pick("foo", "nonce", "Grant_Type", "client_Id", "access_token", "audience"), "bar")
		if q.Op == "token" && q.CAuth == "basic" && r.Intn(2) == 0 {
			// HTTP Basic takes precedence
			body.Set("client_id", w.anyClient(r))
			body.Set("client_secret", "decoy-secret")
		}
		if q.Op == "token" && w.str(q.Grant) == oauth2.AuthorizationCodeGrantType {
			body.Set("refresh_token", w.anyCred(r, "refresh"))
		}
		if q.Op == "token" && w.str(q.Grant) == oauth2.RefreshTokenGrantType {
			body.Set("code", w.anyCred(r, "code"))
		}
	}

	enc := body.Encode()
	rawQuery := query.Encode()
	ctype := pick("application/x-www-form-urlencoded", "application/x-www-form-urlencoded; charset=utf-8",
		"application/x-www-form-urlencoded;charset=UTF-8", "Application/X-WWW-Form-Urlencoded")
	switch a.Body {
	case "multipart":
		var b bytes.Buffer
		mw := multipart.NewWriter(&b)
		for k, v := range body {
			_ = mw.WriteField(k, v[0])
		}
		mw.Close()
		enc, ctype = b.String(), mw.FormDataContentType()
	case "json":
		m := map[string]string{}
		for k, v := range body {
			m[k] = v[0]
		}
		b, _ := json.Marshal(m)
		enc, ctype = string(b), "application/json"
	case "noct":
		ctype = ""
	case "badct":
		ctype = "application/x-www-form-urlencoded; charset"
	}
	if !q.FormOK {
		switch a.Body {
		case "badct":
		case "badquery":
			rawQuery += "&x=%zz"
		case "semicolon":
			enc += "&a=1;b=2"
		default:
			enc += "&x=%zz"
		}
	}
	req := &request{tok: tok}
	u := &url.URL{Path: path, RawQuery: rawQuery}
	hr := &http.Request{Method: q.Method, URL: u, Header: http.Header{}, Host: "auth.example", Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	if q.Method != "GET" || len(body) > 0 || !q.FormOK {
		if ctype != "" {
			hr.Header.Set("Content-Type", ctype)
		}
		data := []byte(enc)
		hr.ContentLength = int64(len(data))
		if a.Fault == "body" {
			e := errBody
			if r.Intn(2) == 0 {
				e = io.ErrUnexpectedEOF
			}
			at := a.At
			switch n := len(data); {
			case n > 0 && a.Seed%3 == 0:
				// close to the end, or right there
				at = n - at%24
				if at < 0 {
					at = 0
				}
			case n > 0:
				at %= n
			}
			req.body = &faultBody{data: data, left: at, hit: &req.hit, err: e}
			hr.Body = req.body
		} else if !a.Plain && r.Intn(3) == 0 || a.Body == "pieces" {
			hr.Body = &chunkBody{data: data, r: r}
		} else {
			hr.Body = io.NopCloser(bytes.NewReader(data))
		}
		if a.Body == "nobody" {
			hr.Body = nil
		}
	} else {
		hr.Body = http.NoBody
	}
	// credentials of the client
	if q.CAuth == "basic" && q.Op != "authorize" && q.Op != "other" {
		v := "Basic " + base64.StdEncoding.EncodeToString([]byte(w.str(q.Client)+":"+w.str(q.Secret)))
		if !a.Plain && r.Intn(4) == 0 {
			v = "basic" + v[5:]
		}
		hr.Header.Set("Authorization", v)
	} else if q.Op == "token" || q.Op == "introspect" || q.Op == "revoke" {
		// something that is no HTTP Basic header
		switch r.Intn(6) {
		case 0:
			hr.Header.Set("Authorization", "Basic !!!")
		case 1:
			hr.Header.Set("Authorization", "Bearer "+base64.StdEncoding.EncodeToString([]byte(w.str(q.Client)+":"+w.str(q.Secret))))
		case 2:
			hr.Header.Set("Authorization", "Basic "+base64.StdEncoding.EncodeToString([]byte("nocolon")))
		case 3:
			hr.Header.Set("Authorization", "Basic")
		}
	}
	if (q.Op == "authorize" || q.Op == "other") && !a.Plain && r.Intn(4) == 0 {
		// credentials of a resource owner elsewhere must not count
		u, p := w.anyUser(r)
		if r.Intn(3) > 0 && w.t.cur().Users[q.User].Pass != "" {
			u, p = w.str(q.User), w.str(w.t.cur().Users[q.User].Pass)
		}
		switch r.Intn(3) {
		case 0:
			hr.Header.Set("Cookie", url.Values{"username": {u}, "password": {p}}.Encode())
			hr.Header.Set("Username", u)
			hr.Header.Set("Password", strings.Map(printable, p))
		default:
			hr.Header.Set("Authorization", "Basic "+base64.StdEncoding.EncodeToString([]byte(u+":"+p)))
		}
	}
	req.r = hr
	return req
}

// decoy gives another value for a parameter that is placed in the query.
func (w *world) decoy(f field, r *rand.Rand) string {
	switch f.name {
	case "client":
		if c := w.anyClient(r); c != f.value {
			return c
		}
	case "tok":
		for i := 0; i < 5; i++ {
			if s := w.anyCred(r, ""); s != f.value && s != "" {
				return s
			}
		}
	case "scope":
		return "decoy"
	case "grant":
		return "client_credentials"
	case "rtype":
		if f.value == "token" {
			return "code"
		}
		return "token"
	case "redir":
		return "http://decoy.example/cb"
	}
	return "decoy-" + f.name
}

func (w *world) anyClient(r *rand.Rand) string {
	ks := sortedKeys(w.t.cur().Clients)
	return w.str(ks[r.Intn(len(ks))])
}

func (w *world) anyUser(r *rand.Rand) (string, string) {
	ks := sortedUsers(w.t.cur().Users)
	k := ks[r.Intn(len(ks))]
	return w.str(k), w.str(w.t.cur().Users[k].Pass)
}

func printable(c rune) rune {
	if c < ' ' || c > '~' {
		return '?'
	}
	return c
}

func (w *world) anyCred(r *rand.Rand, kind string) string {
	var l []string
	for _, c := range w.creds {
		if kind == "" || c.kind == kind {
			l = append(l, c.str)
		}
	}
	if len(l) == 0 {
		return "none"
	}
	return l[r.Intn(len(l))]
}

func (w *world) resourceRequest(q *Q, a *Alt, r *rand.Rand, tok string, pick func(...string) string) *request {
	u := &url.URL{Path: "/resource"}
	hr := &http.Request{Method: pick("GET", "POST", "PUT", "HEAD", "DELETE"), URL: u, Header: http.Header{}, Host: "api.example", Body: http.NoBody}
	switch q.Hdr {
	case "bearer":
		hr.Header.Set("Authorization", pick("Bearer", "bearer", "BEARER", "bEARER")+" "+tok)
	case "bad":
		if a.Mode == "raw" && q.Tok == "" {
			hr.Header.Set("Authorization", string(a.Text))
			break
		}
		if tok == "" {
			tok = "x"
		}
		hr.Header.Set("Authorization", pick("Token "+tok, "Bearer", "Bearer ", "Basic "+base64.StdEncoding.EncodeToString([]byte("a:"+tok)),
			"Bearer\t"+tok, "Bearers "+tok, "Bear "+tok, tok, "Bearer:"+tok, "MAC "+tok, "bearer="+tok, " Bearer "+tok, "Bearer"+tok))
	case "none":
		switch pick("none", "query", "body", "cookie", "xheader", "empty", "proxy") {
		case "query":
			u.RawQuery = url.Values{"access_token": {tok}, "token": {tok}, "bearer": {tok}}.Encode()
		case "body":
			hr.Method = "POST"
			hr.Header.Set("Content-Type", "application/x-www-form-urlencoded")
			hr.Body = io.NopCloser(strings.NewReader(url.Values{"access_token": {tok}}.Encode()))
		case "cookie":
			hr.Header.Set("Cookie", "access_token="+tok+"; Authorization=Bearer "+tok)
		case "xheader":
			hr.Header.Set("X-Authorization", "Bearer "+tok)
			hr.Header.Set("Access-Token", tok)
		case "empty":
			hr.Header.Set("Authorization", "")
		case "proxy":
			hr.Header.Set("Proxy-Authorization", "Bearer "+tok)
		}
	}
	if !a.Plain && q.Hdr == "bearer" && r.Intn(4) == 0 {
		// a token elsewhere must not matter
		hr.URL.RawQuery = url.Values{"access_token": {w.anyCred(r, "access")}}.Encode()
	}
	return &request{r: hr, tok: tok, need: oauth2.Scope(w.strs(q.Need))}
}
