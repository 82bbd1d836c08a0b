package lib

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"strconv"
	"strings"

	"github.com/256dpi/oauth2/v2"
)

func join(l []string) string { return strings.Join(l, " ") }

// scope gives a scope of clean items.
func (x *run) scope() []string { return x.items(1 + x.r.Intn(4)) }

func (x *run) tokenResponse() (*oauth2.TokenResponse, []Pair) {
	tt, at, ex := "bearer", x.text(), 0
	if x.c.has("type") {
		tt = x.text()
	}
	if x.c.has("expires") {
		ex = []int{1, 60, 3600, 604800, 1 << 30, -1, 1 << 40, 7}[x.r.Intn(8)]
	}
	var t *oauth2.TokenResponse
	if tt == "bearer" && x.r.Intn(2) == 0 {
		t = oauth2.NewBearerTokenResponse(at, ex)
	} else {
		t = oauth2.NewTokenResponse(tt, at, ex)
	}
	ps := []Pair{{"token_type", tt}, {"access_token", at}, {"expires_in", strconv.Itoa(ex)}}
	if x.c.has("refresh") {
		t.RefreshToken = x.text()
		ps = append(ps, Pair{"refresh_token", t.RefreshToken})
	}
	if x.c.has("scope") {
		t.Scope = oauth2.Scope(x.scope())
		ps = append(ps, Pair{"scope", join(t.Scope)})
	} else if x.c.flag("emptyscope") {
		t.Scope = oauth2.Scope{}
		ps = append(ps, Pair{"scope", ""})
	}
	return t, ps
}

func (x *run) redirectBase() M {
	return M{"query": []Pair{}, "fields": []Pair{}, "redirect": x.c.flag("redirect")}
}

func (x *run) tokenresp() (M, M) {
	t, ps := x.tokenResponse()
	i := x.redirectBase()
	base := ""
	if x.c.flag("redirect") {
		uri, b, qs := x.uri(x.c.num("nq"))
		base = b
		state := ""
		if x.c.has("state") {
			state = x.text()
		}
		t.SetRedirect(uri, state)
		i["query"] = x.pairs(qs)
		x.Info["uri"] = uri
	} else if x.c.has("state") {
		t.State = x.text()
	}
	if t.State != "" {
		ps = append(ps, Pair{"state", t.State})
	}
	i["fields"] = x.pairs(ps)
	x.keep(t)
	w := newRecorder()
	err := oauth2.WriteTokenResponse(w, t)
	return i, x.decode(w, base, err)
}

func (x *run) coderesp() (M, M) {
	i := x.redirectBase()
	uri, base, qs := x.uri(x.c.num("nq"))
	state := ""
	code := x.text()
	ps := []Pair{{"code", code}}
	if x.c.has("state") {
		state = x.text()
		ps = append(ps, Pair{"state", state})
	}
	i["query"], i["fields"] = x.pairs(qs), x.pairs(ps)
	x.Info["uri"] = uri
	w := newRecorder()
	c := oauth2.NewCodeResponse(code, uri, state)
	x.keep(c)
	err := oauth2.WriteCodeResponse(w, c)
	return i, x.decode(w, base, err)
}

func (x *run) write() (M, M) {
	i := x.redirectBase()
	i["status"] = x.c.num("nq")
	m := map[string]string{}
	for k := 0; k < x.r.Intn(5); k++ {
		m[x.text()] = x.text()
	}
	var ps []Pair
	for k, v := range m {
		ps = append(ps, Pair{k, v})
	}
	i["fields"] = x.pairs(sortedPairs(ps))
	x.keep(m)
	w := newRecorder()
	err := oauth2.Write(w, m, x.c.num("nq"))
	return i, x.decode(w, "", err)
}

// introspection builds an introspection response.
func (x *run) introspection(active bool) (*oauth2.IntrospectionResponse, []Pair) {
	t := &oauth2.IntrospectionResponse{Active: active}
	ps := []Pair{{"active", strconv.FormatBool(active)}}
	if active {
		t.TokenType = x.pick("access_token", "refresh_token")
	} else if x.c.has("type") {
		t.TokenType = x.text()
	}
	if x.c.has("scope") {
		t.Scope = oauth2.Scope(x.scope())
		ps = append(ps, Pair{"scope", join(t.Scope)})
	}
	if t.TokenType != "" {
		ps = append(ps, Pair{"token_type", t.TokenType})
	}
	str := func(f, name string, d *string) {
		if x.c.has(f) {
			*d = x.text()
			ps = append(ps, Pair{name, *d})
		}
	}
	num := func(f, name string, d *int64) {
		if x.c.has(f) {
			*d = []int64{1, 1500000000, 1 << 40, -5, 9007199254740993}[x.r.Intn(5)]
			ps = append(ps, Pair{name, strconv.FormatInt(*d, 10)})
		}
	}
	str("client", "client_id", &t.ClientID)
	str("user", "username", &t.Username)
	num("exp", "exp", &t.ExpiresAt)
	num("iat", "iat", &t.IssuedAt)
	num("nbf", "nbf", &t.NotBefore)
	str("sub", "sub", &t.Subject)
	str("aud", "aud", &t.Audience)
	str("iss", "iss", &t.Issuer)
	str("jti", "jti", &t.Identifier)
	if x.c.has("extra") {
		t.Extra = map[string]interface{}{x.text(): x.text(), "n": 5.0, "l": []interface{}{"a", true, nil}, "o": map[string]interface{}{x.text(): 1.5}}
		b, _ := json.Marshal(t.Extra)
		ps = append(ps, Pair{"extra", string(b)})
	}
	return t, ps
}

func introPairs(t *oauth2.IntrospectionResponse) []Pair {
	ps := []Pair{{"active", strconv.FormatBool(t.Active)}}
	add := func(n, v string) {
		if v != "" {
			ps = append(ps, Pair{n, v})
		}
	}
	num := func(n string, v int64) {
		if v != 0 {
			ps = append(ps, Pair{n, strconv.FormatInt(v, 10)})
		}
	}
	add("scope", join(t.Scope))
	add("token_type", t.TokenType)
	add("client_id", t.ClientID)
	add("username", t.Username)
	num("exp", t.ExpiresAt)
	num("iat", t.IssuedAt)
	num("nbf", t.NotBefore)
	add("sub", t.Subject)
	add("aud", t.Audience)
	add("iss", t.Issuer)
	add("jti", t.Identifier)
	if t.Extra != nil {
		b, _ := json.Marshal(t.Extra)
		add("extra", string(b))
	}
	return ps
}

func tokenPairs(t *oauth2.TokenResponse) []Pair {
	ps := []Pair{{"token_type", t.TokenType}, {"access_token", t.AccessToken}, {"expires_in", strconv.Itoa(t.ExpiresIn)}}
	add := func(n, v string) {
		if v != "" {
			ps = append(ps, Pair{n, v})
		}
	}
	add("refresh_token", t.RefreshToken)
	add("scope", join(t.Scope))
	add("state", t.State)
	return ps
}

func (x *run) introresp() (M, M) {
	t, ps := x.introspection(x.c.has("active"))
	i := x.redirectBase()
	i["fields"] = x.pairs(ps)
	x.keep(t)
	w := newRecorder()
	err := oauth2.WriteIntrospectionResponse(w, t)
	return i, x.decode(w, "", err)
}

func (x *run) redirect() (M, M) {
	uri, base, qs := x.uri(x.c.num("nq"))
	m := map[string]string{}
	for k := 0; k < x.c.num("np"); k++ {
		n := x.text()
		if x.r.Intn(3) == 0 {
			n = x.pick("state", "code", "error", "access_token", "foo")
		}
		v := x.text()
		if x.r.Intn(8) == 0 {
			v = ""
		}
		m[n] = v
	}
	if x.c.flag("clash") && len(qs) > 0 {
		m[qs[0][0]] = x.text()
	}
	var ps []Pair
	for k, v := range m {
		ps = append(ps, Pair{k, v})
	}
	i := x.redirectBase()
	i["frag"] = x.c.flag("frag")
	i["query"] = x.pairs(qs)
	i["fields"] = x.pairs(sortedPairs(ps))
	x.Info["uri"] = uri
	x.keep(m)
	w := newRecorder()
	err := oauth2.WriteRedirect(w, uri, m, x.c.flag("frag"))
	return i, x.decode(w, base, err)
}

// ---------------------------------------------------------------------------
// errors

func (x *run) oauthError(txt func() string) (*oauth2.Error, []Pair) {
	e := &oauth2.Error{Status: x.c.num("status")}
	var ps []Pair
	add := func(n, v string) { ps = append(ps, Pair{n, v}) }
	if x.c.flag("name") {
		e.Name = x.pick("invalid_request", "invalid_grant", "access_denied", "x", "server_error", "insufficient_scope")
		if x.r.Intn(3) == 0 {
			e.Name = txt()
		}
		add("error", e.Name)
	}
	if x.c.has("desc") {
		e.Description = txt()
		add("error_description", e.Description)
	}
	if x.c.has("scope") {
		var l []string
		for k := 0; k <= x.r.Intn(3); k++ {
			s := strings.Map(func(c rune) rune {
				if c == '"' || c == '\\' || c < ' ' || c == 0x7f {
					return 'q'
				}
				return c
			}, x.item())
			l = append(l, s)
		}
		e.Scope = oauth2.Scope(l)
		add("scope", join(l))
	}
	if x.c.has("uri") {
		e.URI = txt()
		add("error_uri", e.URI)
	}
	if x.c.has("realm") {
		e.Realm = txt()
		add("realm", e.Realm)
	}
	return e, ps
}

func errPairs(e *oauth2.Error) []Pair {
	var ps []Pair
	add := func(n, v string) {
		if v != "" {
			ps = append(ps, Pair{n, v})
		}
	}
	add("error", e.Name)
	add("error_description", e.Description)
	add("state", e.State)
	add("scope", join(e.Scope))
	add("error_uri", e.URI)
	add("realm", e.Realm)
	return ps
}

const marker = "s3cret-internal-detail"

func (x *run) errorcase() (M, M) {
	how := x.c.str("how")
	txt := x.text
	if how == "bearer" {
		txt = x.param
	}
	e, ps := x.oauthError(txt)
	i := M{"how": how, "status": e.Status, "query": []Pair{}}
	base := ""
	state := ""
	if x.c.has("state") {
		state = txt()
		ps = append(ps, Pair{"state", state})
	}
	if how == "query" || how == "fragment" {
		uri, b, qs := x.uri(x.c.num("nq"))
		base = b
		i["query"] = x.pairs(qs)
		e.SetRedirect(uri, state, how == "fragment")
		x.Info["uri"] = uri
	} else {
		e.State = state
	}
	hs := map[string]string{}
	if x.c.flag("hdr") {
		hs["X-One"] = "v1"
		if x.r.Intn(2) == 0 {
			hs["WWW-Authenticate"] = `Basic realm="OAuth2"`
		}
		if x.r.Intn(2) == 0 {
			hs["Retry-After"] = "120"
		}
		e.Headers = hs
	}
	i["fields"] = x.pairs(ps)
	e.Scope = roomy(e.Scope)
	x.keep(e)
	w := newRecorder()
	var err error
	if how == "bearer" {
		err = oauth2.WriteBearerError(w, e)
	} else {
		err = oauth2.WriteError(w, e)
	}
	r := x.decode(w, base, err)
	r["headers"] = true
	for k, v := range hs {
		if w.sent.Get(k) != v {
			r["headers"] = false
		}
	}
	r["leak"] = false
	if how == "bearer" && e.Status == 500 {
		all := w.all()
		for _, p := range ps {
			if len(p[1]) > 3 && strings.Contains(all, p[1]) {
				r["leak"] = true
			}
		}
	}
	r["parsed"] = M{"oauth": false, "status": 0, "fields": []Pair{}}
	if how == "json" {
		perr := oauth2.ParseRequestError(w.result(), 1<<20)
		if pe, ok := perr.(*oauth2.Error); ok && pe != nil {
			r["parsed"] = M{"oauth": true, "status": pe.Status, "fields": x.pairs(errPairs(pe))}
			x.keep(pe)
		}
	}
	return i, r
}

type customError struct{ s string }

func (e customError) Error() string { return e.s }

type wrapping struct{ e *oauth2.Error }

func (w wrapping) Error() string { return w.e.Error() }
func (w wrapping) Unwrap() error { return w.e }

// richError offers everything errors are commonly asked for.
type richError struct {
	s       string
	yes     bool
	status  int
	Message string            `json:"error_description"`
	Name    string            `json:"error"`
	Status  int               `json:"-"`
	Headers map[string]string `json:"-"`
}

func (e richError) Error() string   { return e.s }
func (e richError) Temporary() bool { return e.yes }
func (e richError) Timeout() bool   { return e.yes }
func (e richError) StatusCode() int { return e.status }
func (e richError) Code() int       { return e.status }
func (e richError) Is(error) bool   { return e.yes }
func (e richError) String() string  { return e.s }
func (e richError) MarshalJSON() ([]byte, error) {
	return json.Marshal(map[string]string{"error": e.s})
}
func (e richError) MarshalText() ([]byte, error) { return []byte(e.s), nil }
func (e richError) Description() string          { return e.s }
func (e richError) Public() bool                 { return e.yes }
func (e richError) Map() map[string]string       { return map[string]string{"error": e.s} }
func (e richError) Params() string               { return `error="` + e.s + `"` }

// asError pretends to be an OAuth2 error when asked.
type asError struct{ s string }

func (e asError) Error() string { return e.s }
func (e asError) As(target interface{}) bool {
	if t, ok := target.(**oauth2.Error); ok {
		*t = oauth2.InvalidRequest(e.s)
		return true
	}
	return false
}

// embedded has all methods of an OAuth2 error.
type oauthErr = oauth2.Error
type embedded struct{ *oauthErr }

func (x *run) othererror() (M, M) {
	var err error
	m := marker + " " + x.text()
	switch x.c.str("kind") {
	case "plain":
		err = errors.New(m)
	case "wrapped":
		err = fmt.Errorf("%s: %w", m, oauth2.InvalidGrant(marker))
	case "joined":
		err = errors.Join(errors.New(m), oauth2.InvalidToken(marker))
	case "custom":
		err = customError{m}
	case "value":
		err = wrapping{e: oauth2.InvalidScope(marker)}
	case "io":
		err = fmt.Errorf("%s: %w", m, io.ErrUnexpectedEOF)
	case "url":
		err = &url.Error{Op: "GET", URL: "http://" + marker + "/", Err: errors.New(m)}
	case "temporary":
		err = richError{s: m, yes: true, status: 503, Message: m, Name: "invalid_request", Status: 400}
	case "rich":
		err = &richError{s: m, status: 400, Message: m, Name: m, Status: 400, Headers: map[string]string{"X-Detail": marker}}
	case "as":
		err = asError{m}
	case "embedded":
		err = embedded{oauth2.InvalidClient(marker)}
	case "op":
		err = &net.OpError{Op: "dial", Net: marker, Err: richError{s: m, yes: true}}
	case "path":
		err = &os.PathError{Op: "open", Path: "/" + marker, Err: os.ErrNotExist}
	case "dns":
		err = &net.DNSError{Err: m, Name: marker, IsTimeout: true, IsTemporary: true, IsNotFound: true}
	case "deadline":
		err = fmt.Errorf("%s %w", m, context.DeadlineExceeded)
	case "syntax":
		var v int
		err = json.Unmarshal([]byte(`"`+marker+`"`), &v)
		err = fmt.Errorf("%s: %w", marker, err)
	case "body":
		err = fmt.Errorf("%s: %w", m, &http.MaxBytesError{Limit: 5})
	case "asis":
		err = errors.New(`{"error":"` + marker + `"}`)
	}
	w := newRecorder()
	var werr error
	if x.c.str("how") == "json" {
		werr = oauth2.WriteError(w, err)
	} else {
		werr = oauth2.WriteBearerError(w, err)
	}
	r := x.decode(w, "", werr)
	r["leak"] = strings.Contains(w.all(), marker)
	return M{"how": x.c.str("how"), "kind": x.c.str("kind")}, r
}

func (x *run) errortable() (M, M) {
	d := "D " + x.item()
	table := map[string]func(string) *oauth2.Error{
		"invalid_request": oauth2.InvalidRequest, "invalid_client": oauth2.InvalidClient, "invalid_grant": oauth2.InvalidGrant,
		"invalid_scope": oauth2.InvalidScope, "invalid_token": oauth2.InvalidToken, "unauthorized_client": oauth2.UnauthorizedClient,
		"unsupported_grant_type": oauth2.UnsupportedGrantType, "unsupported_response_type": oauth2.UnsupportedResponseType,
		"unsupported_token_type": oauth2.UnsupportedTokenType, "access_denied": oauth2.AccessDenied, "server_error": oauth2.ServerError,
		"temporarily_unavailable": oauth2.TemporarilyUnavailable,
	}
	want := map[string]string{"error_description": d}
	var e *oauth2.Error
	kind := x.c.str("kind")
	switch kind {
	case "protected":
		e = oauth2.ProtectedResource()
		delete(want, "error_description")
	case "insufficient_scope":
		s := x.items(2)
		e = oauth2.InsufficientScope(oauth2.Scope(s))
		want = map[string]string{"scope": join(s)}
	default:
		e = table[kind](d)
	}
	w := newRecorder()
	_ = oauth2.WriteError(w, e)
	name, desc := "none", true
	doc, ok := object(w.body.Bytes())
	if !ok {
		desc = false
	}
	seen := map[string]string{}
	for _, p := range doc {
		if p[0] == "error" {
			name = p[1]
		} else {
			seen[p[0]] = p[1]
		}
	}
	for k, v := range want {
		if seen[k] != v {
			desc = false
		}
	}
	if len(seen) != len(want) {
		desc = false
	}
	// the same as text
	if e.Error() == "" || e.String() != e.Error() {
		desc = false
	}
	c := w.sent.Get("WWW-Authenticate")
	return M{"kind": kind}, M{"status": w.status, "name": name, "desc": desc, "challenge": strings.HasPrefix(c, "Basic ")}
}
