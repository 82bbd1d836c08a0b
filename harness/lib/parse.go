package lib

import (
	"encoding/base64"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"strings"

	"github.com/256dpi/oauth2/v2"
)

// raw draws a non-empty text, now and then with bytes that are no UTF-8.
func (x *run) raw() string {
	s := x.text()
	switch x.r.Intn(12) {
	case 0:
		return s + x.pick("\xff", "\xc3\x28", "\x80", "\xed\xa0\x80")
	case 1:
		return x.pick(" ", "\t", "\n", "  ") + s
	case 2:
		return s + x.pick(" ", "\t", "\n", "  ")
	case 3:
		return x.pick("\"", "'") + s + x.pick("\"", "'")
	case 4:
		return strings.Repeat(s, 1+2000/len(s))
	}
	return s
}

// enc encodes a text for a form, in one of the ways that mean the same.
func (x *run) enc(s string) string {
	var b strings.Builder
	style := x.r.Intn(4)
	for i := 0; i < len(s); i++ {
		c := s[i]
		plain := c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || strings.IndexByte("-_.~", c) >= 0
		switch {
		case c == ' ' && style != 1:
			b.WriteByte('+')
		case plain && (style != 2 || x.r.Intn(3) > 0):
			b.WriteByte(c)
		case strings.IndexByte("/:?@!*'(),$", c) >= 0 && style == 3:
			b.WriteByte(c)
		case style == 1:
			fmt.Fprintf(&b, "%%%02x", c)
		default:
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

// redir draws what is sent as the redirect URI and what it stands for.
func (x *run) redir(class string) (string, string) {
	u, _, _ := x.uri(x.r.Intn(3))
	simple := x.pick("http://example.com/cb", "https://example.com:8443/a/b?c=d&e=f", "myapp://auth", "/cb/x?y=z", "https://example.com/;a,b?q=1;2",
		"http://u:p@localhost/~x", "https://example.com/cb?x=http://y/z?w")
	switch class {
	case "twice":
		return url.QueryEscape(u), u
	case "once":
		return simple, simple
	case "plus":
		// not escaped again: a plus is a space
		return simple + x.pick("?", "/") + "a+b", ""
	case "frag":
		return url.QueryEscape(u + "#" + x.pick("", "x", "a=b")), "!"
	case "escfrag":
		return simple + "%23" + x.pick("", "x", "a=b"), "!"
	case "relative":
		return x.pick("cb", "example.com/cb", "foo bar", "?x=y", ".", "../cb", "example.com", "www.example.com/x?y"), "!"
	case "nohost":
		return x.pick("http://[::1", "http://[::1/cb", "http://exa mple.com/", "://example.com", ":8080/cb", "http://example.com:port/", "1http://example.com/"), "!"
	case "badesc":
		return url.QueryEscape("http://example.com/cb" + x.pick("%", "%2", "%zz", "/%g1", "/a%")), "!"
	case "badescraw":
		return "http://example.com/cb" + x.pick("%", "%2", "%zz", "/%g1", "/a%"), "!"
	case "control":
		return url.QueryEscape("http://example.com/cb" + x.pick("\n", "\x00", "\x7f", "\r\nX: y", "\t")), "!"
	}
	return "", ""
}

type param struct{ name, value string }

func (x *run) encode(ps []param) string {
	var l []string
	for _, p := range ps {
		switch {
		case p.value == "" && x.r.Intn(2) == 0:
			l = append(l, x.enc(p.name))
		default:
			l = append(l, x.enc(p.name)+"="+x.enc(p.value))
		}
	}
	s := strings.Join(l, "&")
	if x.r.Intn(8) == 0 {
		s = x.pick("&", "&&") + s
	}
	if x.r.Intn(8) == 0 {
		s += "&"
	}
	return s
}

func (x *run) parse() (M, M) {
	kind := x.c.str("kind")
	odd := x.c.str("odd")
	uris, scopes := []Pair{}, []Pair{}
	scopeText := func() string {
		l := x.items(1 + x.r.Intn(3))
		s := strings.Join(l, " ")
		if x.r.Intn(4) == 0 {
			s = strings.Join(l, "   ")
		}
		if x.r.Intn(6) == 0 {
			s = " " + s + " "
		}
		scopes = append(scopes, Pair{x.label(s), x.label(strings.Join(l, "\x00 \x00"))})
		return s
	}
	redirText := func(class string) string {
		s, m := x.redir(class)
		if class == "plus" {
			m = strings.ReplaceAll(s, "+", " ")
		}
		if m != "!" {
			m = x.label(m)
		}
		if s != "" {
			uris = append(uris, Pair{x.label(s), m})
		}
		return s
	}
	value := func(n string) string {
		switch n {
		case "scope":
			return scopeText()
		case "redirect_uri":
			return redirText(x.pick("twice", "once", "frag", "relative"))
		case "grant_type", "response_type":
			return x.pick("password", "code", "token", "authorization_code", "refresh_token", "client_credentials", x.raw())
		case "token_type_hint":
			return x.pick("access_token", "refresh_token", x.raw())
		}
		return x.raw()
	}

	// the parameters of the case
	var names []string
	if l, ok := x.c["has"].([]interface{}); ok {
		for _, n := range l {
			names = append(names, n.(string))
		}
	}
	var ps []param
	for _, n := range names {
		ps = append(ps, param{n, value(n)})
	}
	if u := x.c.str("redir"); u != "" {
		ps = append(ps, param{"redirect_uri", redirText(u)})
	}
	x.r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	if odd == "extra" {
		for _, n := range []string{"client", "Client_ID", "token ", "x", "", "redirect", "scope2", "id_token", "resource", "nonce", "code_verifier", "assertion"} {
			ps = append(ps, param{n, x.raw()})
		}
		x.r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	}
	if odd == "emptyvalues" && len(ps) > 0 {
		ps[x.r.Intn(len(ps))].value = ""
	}
	var query, body []param
	switch x.c.str("place") {
	case "query":
		query = ps
	case "body":
		body = ps
	default:
		for _, p := range ps {
			if x.r.Intn(2) == 0 {
				query = append(query, p)
			} else {
				body = append(body, p)
			}
		}
	}
	// decoys
	twin := func(l []param) []param {
		var r []param
		for _, p := range l {
			r = append(r, param{p.name, value(p.name)})
		}
		return r
	}
	blank := func(l []param) []param {
		var r []param
		for _, p := range l {
			r = append(r, param{p.name, ""})
		}
		return r
	}
	switch x.c.str("decoy") {
	case "before":
		query, body = append(twin(query), query...), append(twin(body), body...)
	case "after":
		query, body = append(query, twin(query)...), append(body, twin(body)...)
	case "emptybefore":
		query, body = append(blank(query), query...), append(blank(body), body...)
	case "emptyafter":
		query, body = append(query, blank(query)...), append(body, blank(body)...)
	case "otherplace":
		query, body = append(query, twin(body)...), append(body, twin(query)...)
		all := []string{"token", "token_type_hint", "grant_type", "client_id", "client_secret", "username", "password", "refresh_token", "code", "scope", "redirect_uri", "state", "response_type"}
		sent := map[string]bool{}
		for _, p := range ps {
			sent[p.name] = true
		}
		for _, n := range all {
			if !sent[n] && kind != "authorize" {
				query = append(query, param{n, value(n)})
			}
		}
	case "case":
		for _, p := range ps {
			body = append([]param{{strings.ToUpper(p.name), x.raw()}, {strings.ReplaceAll(p.name, "_", "-"), x.raw()}, {strings.ReplaceAll(p.name, "_", ""), x.raw()}}, body...)
		}
		// a name without an underscore or with a blank is not the same name
		body = keep(body, ps)
	case "array":
		for _, p := range ps {
			body = append(body, param{p.name + "[]", x.raw()}, param{p.name + "[0]", x.raw()}, param{" " + p.name, x.raw()}, param{p.name + " ", x.raw()})
		}
	}
	if odd == "access_token" {
		query = append(query, param{"access_token", x.raw()})
		body = append(body, param{"access_token", x.raw()})
	}

	// the request
	rawQuery, rawBody := x.encode(query), x.encode(body)
	i := M{"kind": kind, "method": x.c.str("method"), "ct": "other", "queryok": true, "bodyok": true, "auth": "none", "user": "", "pass": ""}
	spoil := func(s string) string {
		bad := x.pick("%", "%2", "%zz", "x=%", "%=y", "a=%g0", "x=1%")
		if s == "" {
			return bad
		}
		if x.r.Intn(2) == 0 {
			return s + "&" + bad
		}
		return bad + "&" + s
	}
	if odd == "badquery" {
		rawQuery = spoil(rawQuery)
		i["queryok"] = false
	}
	if odd == "badbody" {
		rawBody = spoil(rawBody)
		i["bodyok"] = false
	}
	path := x.pick("/oauth2/x", "/", "/token", "/a%2Fb")
	target := path
	if rawQuery != "" || x.r.Intn(6) == 0 {
		target += "?" + rawQuery
	}
	u, err := url.ParseRequestURI(target)
	if err != nil {
		panic(err)
	}
	req := &http.Request{Method: x.c.str("method"), URL: u, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Host: "example.com",
		Body: io.NopCloser(strings.NewReader(rawBody)), ContentLength: int64(len(rawBody)), RequestURI: target, RemoteAddr: "127.0.0.1:1"}
	set := func(v string) { req.Header.Set("Content-Type", v) }
	switch x.c.str("ct") {
	case "form":
		set("application/x-www-form-urlencoded")
		i["ct"] = "form"
	case "formcharset":
		set("application/x-www-form-urlencoded;charset=UTF-8")
		i["ct"] = "form"
	case "upper":
		set("Application/X-WWW-Form-URLEncoded; Charset=utf-8")
		i["ct"] = "form"
	case "multipart":
		rawBody = ""
		for _, p := range body {
			rawBody += "--bnd\r\nContent-Disposition: form-data; name=\"" + strings.Map(func(c rune) rune {
				if c < ' ' || c == '"' || c == '\\' {
					return -1
				}
				return c
			}, p.name) + "\"\r\n\r\n" + p.value + "\r\n"
		}
		rawBody += "--bnd--\r\n"
		req.Body, req.ContentLength = io.NopCloser(strings.NewReader(rawBody)), int64(len(rawBody))
		set("multipart/form-data; boundary=bnd")
	case "json":
		var l []string
		for _, p := range body {
			l = append(l, quote(p.name)+":"+quote(p.value))
		}
		rawBody = "{" + strings.Join(l, ",") + "}"
		req.Body, req.ContentLength = io.NopCloser(strings.NewReader(rawBody)), int64(len(rawBody))
		set("application/json")
	case "text":
		set("text/plain")
	}
	user, pass := strings.ReplaceAll(x.raw(), ":", "")+"u", x.raw()
	b64 := func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }
	auth := func(v string) { req.Header.Set("Authorization", v) }
	creds := func() { i["auth"], i["user"], i["pass"] = "basic", x.label(user), x.label(pass) }
	if kind == "bearer" {
		x.bearer(i, auth)
	} else {
		switch x.c.str("auth") {
		case "basic":
			auth("Basic " + b64(user+":"+pass))
			creds()
		case "mixedbasic":
			auth(x.pick("basic ", "BASIC ", "bAsIc ") + b64(user+":"+pass))
			creds()
		case "emptyuser":
			if kind == "token" || kind == "authorize" {
				user = ""
			}
			auth("Basic " + b64(user+":"+pass))
			creds()
		case "emptypass":
			pass = x.pick("", ":", ":x")
			auth("Basic " + b64(user+":"+pass))
			creds()
		case "nocolon":
			auth("Basic " + b64(user))
		case "badbase64":
			auth("Basic " + x.pick("!!!", "a", b64(user + ":" + pass)[1:]+"=", user+":"+pass, b64(user+":"+pass)+"!"))
		case "urlbase64":
			auth("Basic " + base64.URLEncoding.EncodeToString([]byte("\xff\xfe?>:"+user)))
		case "bearer":
			auth("Bearer " + b64(user+":"+pass))
		case "scheme":
			auth(x.pick("Digest ", "Token ", "Basi ", "Basicx ", "BasicBasic ", "\"Basic\" ", "Basic:", "Basic-") + b64(user+":"+pass))
		case "noscheme":
			auth(x.pick("", "Basic") + b64(user+":"+pass))
		}
	}
	if odd == "headers" {
		req.Header.Set("Proxy-Authorization", "Basic "+b64(user+":"+pass))
		req.Header.Set("X-Authorization", "Bearer decoy")
		req.Header.Set("X-Http-Method-Override", x.pick("POST", "GET", "DELETE"))
		req.Header.Set("Cookie", "access_token=decoy; client_id=decoy; state=decoy")
		req.Header.Set("Client-Id", "decoy")
		req.Header.Set("State", "decoy")
		req.Header.Set("Referer", "http://example.com/?state=decoy")
		u.User = url.UserPassword("decoy", "decoy")
	}
	if odd == "parsed" {
		_ = req.ParseForm()
	}
	pp := func(l []param) []Pair {
		r := []Pair{}
		for _, p := range l {
			r = append(r, Pair{x.label(p.name), x.label(p.value)})
		}
		return r
	}
	i["query"], i["body"], i["uris"], i["scopes"] = pp(query), pp(body), uris, scopes
	x.Info["request"] = clip(fmt.Sprintf("%s %s | %s | %s", req.Method, target, headerText(req.Header), rawBody))

	read := func() M {
		r := M{"ok": false, "none": true, "oauth": false, "status": 0, "name": "", "fields": []Pair{}}
		var fs []Pair
		var err error
		none := true
		switch kind {
		case "authorize":
			p, e := oauth2.ParseAuthorizationRequest(req)
			err, none = e, p == nil
			if p != nil {
				x.keep(p)
				x.mine(p.Scope)
				fs = []Pair{{"type", p.ResponseType}, {"client", p.ClientID}, {"redir", p.RedirectURI}, {"scope", strings.Join(p.Scope, "\x00 \x00")}, {"state", p.State}}
			}
		case "token":
			p, e := oauth2.ParseTokenRequest(req)
			err, none = e, p == nil
			if p != nil {
				x.mine(p.Scope)
				fs = reqPairs(p)
				x.keep(p)
			}
		case "introspect":
			p, e := oauth2.ParseIntrospectionRequest(req)
			err, none = e, p == nil
			if p != nil {
				fs = []Pair{{"token", p.Token}, {"hint", p.TokenTypeHint}, {"client", p.ClientID}, {"secret", p.ClientSecret}}
			}
		case "revoke":
			p, e := oauth2.ParseRevocationRequest(req)
			err, none = e, p == nil
			if p != nil {
				fs = []Pair{{"token", p.Token}, {"hint", p.TokenTypeHint}, {"client", p.ClientID}, {"secret", p.ClientSecret}}
			}
		case "bearer":
			p, e := oauth2.ParseBearerToken(req)
			err, none = e, p == ""
			fs = []Pair{{"token", p}}
		}
		r["none"] = none
		if err != nil {
			x.Info["error"] = err.Error()
			if e, ok := err.(*oauth2.Error); ok && e != nil {
				r["oauth"], r["status"], r["name"] = true, e.Status, x.label(e.Name)
			}
			return r
		}
		r["ok"] = !none
		if !none {
			r["fields"] = x.pairs(fs)
		}
		return r
	}
	r := read()
	// the request is as good as before
	r["again"] = i["queryok"] == false || i["bodyok"] == false || reflect.DeepEqual(read(), r)
	return i, r
}

// keep drops parameters of l that have the very name of one of ps but are not of it.
func keep(l, ps []param) []param {
	var r []param
	for _, p := range l {
		clash := false
		for _, q := range ps {
			if p.name == q.name && p.value != q.value {
				clash = true
			}
		}
		if !clash {
			r = append(r, p)
		}
	}
	return r
}

// bearer sets the authorization header of a request to a resource.
func (x *run) bearer(i M, auth func(string)) {
	tok := x.pick("a", "abc.def", "mF_9.B5f-4.1JqM", "a+b/c~d==", "A", "x.y.z", "bearer", "Bearer", "a b", "a,b", "\"q\"", "a:b", "é", "0", "null", strings.Repeat("t", 1+x.r.Intn(3000)),
		"tok%20en", "a=b", "%41", "a;b", "undefined")
	i["auth"] = "other"
	good := func(s string) {
		auth(s + " " + tok)
		i["auth"], i["user"] = "bearer", x.label(tok)
	}
	switch x.c.str("auth") {
	case "none":
		i["auth"] = "none"
	case "empty":
		auth("")
		i["auth"] = "none"
	case "bearer":
		good("Bearer")
	case "lowerbearer":
		good("bearer")
	case "upperbearer":
		good("BEARER")
	case "mixedbearer":
		good(x.pick("bEARER", "BeArEr", "bearER"))
	case "bare":
		auth(x.pick("Bearer", "bearer", "BEARER"))
	case "baresp":
		auth("Bearer ")
	case "tab":
		auth("Bearer\t" + tok)
	case "comma":
		auth("Bearer," + tok)
	case "colon":
		auth(x.pick("Bearer:", "Bearer: ", "Bearer=", "Bearer-") + tok)
	case "glued":
		auth("Bearer" + x.pick("x", "s ", "er ", ".") + tok)
	case "basic":
		auth("Basic " + base64.StdEncoding.EncodeToString([]byte("u:"+tok)))
	case "token":
		auth(x.pick("Token ", "MAC ", "Digest ", "bear ", "beare ", "ſearer ") + tok)
	case "prefix":
		auth(x.pick(" ", "x", "\"", "OAuth ", "Basic ") + "Bearer " + tok)
	case "short":
		auth(x.pick("B", "b", "x", "Bear", "token", "Beare", " "))
	}
}

func (x *run) known() (M, M) {
	k, t := x.c.str("kind"), x.c.str("text")
	some := x.pick("password", "client_credentials", "authorization_code", "refresh_token", "token", "code", "access_token")
	switch t {
	case "case":
		t = x.pick(strings.ToUpper(some), strings.Title(some), strings.ToUpper(some[:1])+some[1:])
	case "space":
		t = x.pick(" "+some, some+" ", some+"\n", some+" "+some, some+",", some+"\x00")
	case "piece":
		t = x.pick(some[:len(some)-1], some[1:], some+some, some[:1])
	case "any":
		t = x.raw()
	case "plural":
		t = some + "s"
	case "dash":
		t = x.pick(strings.ReplaceAll(some, "_", "-"), strings.ReplaceAll(some, "_", ""), strings.ReplaceAll(some, "_", " "), "urn:ietf:params:oauth:grant-type:"+some)
	}
	var y bool
	switch k {
	case "grant":
		y = oauth2.KnownGrantType(t)
	case "response":
		y = oauth2.KnownResponseType(t)
	default:
		y = oauth2.KnownTokenType(t)
	}
	return M{"kind": k, "text": x.label(t)}, M{"known": y}
}
