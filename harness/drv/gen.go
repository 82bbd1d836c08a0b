package drv

import (
	"fmt"
	"math/rand"
	"net/url"
	"strings"
	"unicode"
	"unicode/utf8"
)

var literals = []string{"password", "client_credentials", "authorization_code", "refresh_token", "token", "code", "access_token"}

// profile steers the random generator.
type profile struct {
	name    string
	length  int
	w       map[string]int // intents
	mut     map[string]int // fields to spoil
	pMut    float64        // how often a request is spoiled
	pSnap   float64        // how often a snapshot follows an event
	pFinal  float64        // how often everything is redeemed at the end
	fault   float64        // how often a request is hit by a fault
	faults  []string
	simple  bool     // one client, one user
	noShort bool     // no short lifespans
	chunks  bool     // random source delivers small pieces
	sweep   []string // places that are swept with odd texts
}

type gen struct {
	w *world
	r *rand.Rand
	p *profile
	t *Trace
}

func (g *gen) pick(l ...string) string { return l[g.r.Intn(len(l))] }
func (g *gen) chance(p float64) bool   { return g.r.Float64() < p }

const alnum = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func (g *gen) rndstr(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alnum[g.r.Intn(len(alnum))]
	}
	return string(b)
}

var scopePool = []string{"foo", "bar", "baz", "fo", "foobar", "Foo", "foo:read", "foo:write", "read", "readwrite", "*", "a", "b", "ab",
	"openid", "https://api.example/x", "\u00fcber", "foo,bar", "\"q\"", "x=y", "foo/bar"}
var clientPool = []string{"client", "client1", "client2", "Client1", "client-1", "my client", "cl%20ient", "c+1", "\u00e7lient", "client1/admin", "app@example.com", "0", "cl&ient=x"}
var userPool = []string{"user", "user1", "user2", "User1", "user1@example.com", "us er", "\u00fcser", "root", "u+1", "admin%40", "0"}
var redirPool = []string{"http://example.com/callback", "http://example.com/callback2", "https://example.com/callback", "http://example.com/callback/",
	"http://Example.com/callback", "http://example.com:8080/callback", "https://app.example.com/cb?x=1&y=2", "https://app.example.com/cb?x=1",
	"myapp://cb", "http://localhost/", "http://example.com/a%20b", "http://example.com/a+b?q=c%2Bd", "http://127.0.0.1:9999/x/y/z?empty=&k=v%26w",
	"http://example.com/caf%C3%A9", "http://user@example.com/cb", "/relative/cb", "http://[::1]:80/cb", "http://example.com",
	"http://example.com/a%2Fb/cb", "http://example.com/x%3Fy%23z", "https://app.example.com/cb?x=1&x=2&a=b", "https://app.example.com/cb?b=&a=1;2&b=%20"}
var statePool = []string{"", "", "xyz", "a b", "a%20b", "\u00e4\u00f6", "&x=y", "+", "#frag", "=", "\"quoted\"", "%", "%zz", "{\"a\":1}", "a+b", "\x00\x01", "..", "\u2028", "code", "a=b&code=evil", "%2526", "\\", "<script>", "0", "null", " lead", "trail ", "\r\nX: y", "\xff\xfe"}

// newTrace draws a configuration.
func newTrace(id int, seed int64, p *profile) (*Trace, *rand.Rand) {
	r := rand.New(rand.NewSource(seed))
	g := &gen{r: r}
	t := &Trace{ID: id, Seed: seed, Profile: p.name, Strings: map[string]string{}}
	names := map[string]string{}
	for _, l := range literals {
		names[l] = l
	}
	lab := func(prefix, s string) string {
		if s == "" {
			return ""
		}
		if l, ok := names[s]; ok {
			return l
		}
		l := fmt.Sprintf("%s%d", prefix, len(names))
		names[s] = l
		t.Strings[l] = s
		return l
	}
	perm := func(pool []string, n int) []string {
		var l []string
		for _, i := range r.Perm(len(pool))[:n] {
			l = append(l, pool[i])
		}
		return l
	}
	nc, nu := 1+r.Intn(4), 1+r.Intn(3)
	if nc == 1 && !p.simple && r.Intn(3) > 0 {
		nc = 3
	}
	if p.simple {
		nc, nu = 2, 1
	}
	t.Cfg.Clients = map[string]CfgClient{}
	t.Cfg.Users = map[string]CfgUser{}
	redirs := perm(redirPool, 3)
	lastSecret := ""
	for i, c := range perm(clientPool, nc) {
		s := "S3cr3t-" + g.rndstr(8)
		switch r.Intn(16) {
		case 0:
			s = "S3cr3t:" + g.rndstr(4) + "+%&= \u00e9\"" + g.rndstr(2)
		case 1:
			if lastSecret != "" {
				s = lastSecret
			}
		case 2, 3:
			// long ones, alike for a long stretch
			s = "S3cr3t-" + strings.Repeat(g.rndstr(3), 20+r.Intn(20))
			if len(lastSecret) > 60 {
				s = lastSecret[:len(lastSecret)-1-r.Intn(3)] + g.rndstr(3)
			}
		}
		lastSecret = s
		rd := redirs[r.Intn(len(redirs))]
		conf := r.Intn(3) > 0
		if i == 0 {
			conf = true
		}
		if i == 1 {
			conf = r.Intn(2) == 0
		}
		if !conf && r.Intn(2) == 0 || conf && r.Intn(25) == 0 {
			s = ""
		}
		t.Cfg.Clients[lab("c", c)] = CfgClient{Secret: lab("k", s), Redirect: lab("r", rd), Conf: conf}
	}
	lastPass := ""
	for _, u := range perm(userPool, nu) {
		s := "Passw0rd-" + g.rndstr(6)
		if r.Intn(10) == 0 && lastPass != "" {
			s = lastPass
		}
		if r.Intn(10) == 0 {
			s += strings.Repeat(g.rndstr(4), 15+r.Intn(20))
		}
		if r.Intn(15) == 0 {
			s = ""
		}
		if r.Intn(15) == 0 {
			s = "Passw0rd " + g.rndstr(4) + "+%&=\u00e9 "
		}
		lastPass = s
		t.Cfg.Users[lab("u", u)] = CfgUser{Pass: lab("p", s)}
	}
	ns := r.Intn(6)
	if r.Intn(4) > 0 && ns < 2 {
		ns = 3
	}
	for _, s := range perm(scopePool, ns) {
		t.Cfg.Allowed = append(t.Cfg.Allowed, lab("s", s))
	}
	if r.Intn(12) == 0 {
		// many
		for i := 0; i < 10+r.Intn(20); i++ {
			t.Cfg.Allowed = append(t.Cfg.Allowed, lab("s", fmt.Sprintf("%s:%d", g.pick("item", "foo", "s"), i)))
		}
	}
	if r.Intn(5) == 0 {
		for _, s := range perm(scopePool, 2) {
			t.Joint = append(t.Joint, lab("s", s))
		}
	}
	t.Cfg.TPS = 1000
	spans := []int{1000, 1500, 2500, 4000, 10000, 59999, 60000, 600000, 3600000, 86400000}
	if r.Intn(10) == 0 {
		t.Cfg.TPS = 1
		spans = []int{1, 60, 600, 3600, 86400, 604800, 2592000, 31536000}
	}
	if p.noShort {
		spans = spans[5:]
	}
	sp := func() int {
		if !p.noShort && r.Intn(25) == 0 {
			return r.Intn(3)
		}
		return spans[r.Intn(len(spans))] + r.Intn(2)*r.Intn(700)*b2i(t.Cfg.TPS == 1000)
	}
	t.Cfg.AL, t.Cfg.RL, t.Cfg.CL = sp(), sp(), sp()
	if r.Intn(4) == 0 {
		t.Cfg.RL = t.Cfg.AL
	}
	t.Cfg.KLen = []int{16, 16, 16, 8, 32, 64, 20, 33}[r.Intn(8)]
	if r.Intn(8) == 0 {
		t.Cfg.KLen = []int{24, 48, 63, 65, 100, 128, 200, 300}[r.Intn(8)]
	}
	t.Secret = []byte("server-secret-" + g.rndstr(1+r.Intn(30)))
	if r.Intn(4) == 0 {
		t.Secret = []byte("server-secret-" + g.rndstr(20+r.Intn(100)))
	}
	if p.chunks {
		t.Chunk = 1 + r.Intn(9)
	}
	return t, r
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---------------------------------------------------------------------------
// near misses

// what some think does not matter at either end
var blanks = []string{" ", " ", "\t", "\n", "\r\n", "\r", "  ", "\u00a0", "\u200b", "\v", ".", "=", "+", "/", ",", ";", "\"", "'", "%20", "\u3000"}

func (g *gen) near(s string, others []string) string {
	for i := 0; i < 20; i++ {
		x := s
		switch g.r.Intn(19) {
		case 17:
			// differs at the very end
			if len(s) > 0 {
				x = s[:len(s)-1] + g.rndstr(1)
			}
		case 18:
			// agrees on a beginning only
			if len(s) > 3 {
				x = s[:1+g.r.Intn(len(s)-2)]
				if g.chance(0.5) {
					x += g.rndstr(len(s) - len(x))
				}
			}
		case 0:
			x = ""
		case 1:
			x = strings.Map(func(c rune) rune {
				if unicode.IsUpper(c) {
					return unicode.ToLower(c)
				}
				return unicode.ToUpper(c)
			}, s)
		case 2:
			if len(s) > 1 {
				x = s[:len(s)-1]
			}
		case 3:
			x = s + string(alnum[g.r.Intn(len(alnum))])
		case 4:
			x = g.pick(blanks...) + s
		case 5:
			x = s + g.pick(blanks...)
		case 6:
			if len(s) > 1 {
				x = s[1:]
			}
		case 7, 8, 9:
			if len(others) > 0 {
				x = others[g.r.Intn(len(others))]
			}
		case 10:
			x = g.pick(s+"\x00", s+"\x00"+g.rndstr(2), s+g.pick(blanks...), g.pick(blanks...)+s)
		case 11:
			x = url.QueryEscape(s)
		case 12:
			if len(s) > 0 {
				b := []byte(s)
				b[g.r.Intn(len(b))] ^= 1
				x = string(b)
			}
		case 13:
			x = s + s
		case 14:
			x = strings.ToUpper(s)
		case 15:
			x = g.pick("invalid", "*", "%", "null", "' OR 1=1", "undefined", "\u00e9")
		case 16:
			if len(s) > 2 {
				i := 1 + g.r.Intn(len(s)-1)
				x = s[:1] + s[i:]
			}
		}
		if x != s && !strings.Contains(x, "\xff") && utf8.ValidString(x) {
			return x
		}
	}
	return s + "x"
}

func (g *gen) nearRedir(s string) string {
	var others []string
	for _, c := range g.t.cur().Clients {
		others = append(others, g.w.str(c.Redirect))
	}
	sortStrings(others)
	for i := 0; i < 20; i++ {
		x := s
		switch g.r.Intn(22) {
		case 18:
			x = s + g.pick(g.rndstr(1), g.rndstr(1+g.r.Intn(6)), "%20", "%2e", "%00", "#", "-x", ";a", "!", "~", "%2F..", ",", "%3Fa=b")
		case 19:
			if len(s) > 12 {
				x = s[:len(s)-1-g.r.Intn(3)]
			}
		case 20:
			// another case somewhere
			if i := 1 + g.r.Intn(len(s)+1); i < len(s) {
				x = s[:i] + strings.ToUpper(s[i:])
			}
		case 21:
			x = g.near(s, others)
		case 0:
			x = s + "/"
		case 1:
			x = strings.TrimSuffix(s, "/")
		case 2:
			x = s + "?"
		case 3:
			x = s + "?a=b"
		case 4:
			x = s + "&a=b"
		case 5:
			x = strings.Replace(s, "http://", "https://", 1)
		case 6:
			x = strings.Replace(s, "https://", "http://", 1)
		case 7:
			x = strings.ToUpper(s)
		case 8:
			x = strings.Replace(s, "example.com", "example.com.evil.org", 1)
		case 9:
			x = strings.Replace(s, "example.com", "example.com:80", 1)
		case 10:
			x = strings.Replace(s, "://", "://evil@", 1)
		case 11:
			x = s + "/../evil"
		case 12:
			x = s + "/sub"
		case 13, 14:
			x = others[g.r.Intn(len(others))]
		case 15:
			if j := strings.IndexByte(s, '?'); j > 0 {
				x = s[:j]
			}
		case 16:
			x = strings.Replace(s, "example.com", "EXAMPLE.com", 1)
		case 17:
			x = "http://evil.example.org/callback"
		}
		if x != s && x != "" && utf8.ValidString(x) {
			return x
		}
	}
	return "http://evil.example.org/"
}

var badRedirs = []string{"foo", "%", "%zz", "%25zz", "http://", "://x", "http://exa mple.com", "example.com/cb", "http://a b", "?x", "#f", "http://example.com/%", "\x00", "http://[::1", "mailto", "%23"}

// setRedir sets the redirect URI of a request to a text.
func (g *gen) setRedir(q *Q, a *Alt, s string) {
	if s == "" {
		q.Redir = ""
		return
	}
	if _, err := url.ParseRequestURI(s); err != nil || strings.Contains(s, "#") {
		q.Redir = "!bad"
		a.Redir = url.QueryEscape(s)
		return
	}
	q.Redir = g.w.intern(s)
}

// ---------------------------------------------------------------------------
// choosing

func (g *gen) client() (string, CfgClient) {
	ks := sortedKeys(g.t.cur().Clients)
	k := ks[g.r.Intn(len(ks))]
	return k, g.t.cur().Clients[k]
}

func (g *gen) otherClient(not string) string {
	ks := sortedKeys(g.t.cur().Clients)
	for i := 0; i < 8; i++ {
		if k := ks[g.r.Intn(len(ks))]; k != not {
			return k
		}
	}
	return ks[0]
}

func (g *gen) user() (string, string) {
	ks := sortedUsers(g.t.cur().Users)
	k := ks[g.r.Intn(len(ks))]
	return k, g.t.cur().Users[k].Pass
}

func (g *gen) subset(l []string, p float64) []string {
	var r []string
	for _, i := range g.r.Perm(len(l)) {
		if g.chance(p) {
			r = append(r, l[i])
		}
	}
	if len(r) > 0 && g.chance(0.1) {
		r = append(r, r[0])
	}
	return r
}

// cred picks a credential, recent ones more often.
func (g *gen) cred(ok func(*cred) bool) *cred {
	var l []*cred
	for _, c := range g.w.creds {
		if ok(c) {
			l = append(l, c)
		}
	}
	if len(l) == 0 {
		return nil
	}
	var orphans []*cred
	for _, c := range l {
		if _, ok := g.t.cur().Clients[c.client]; !ok {
			orphans = append(orphans, c)
		}
	}
	if orphans != nil && g.chance(0.35) {
		// its client is gone
		l = orphans
	}
	if g.chance(0.5) {
		n := len(l)
		if n > 3 {
			l = l[n-3:]
		}
	}
	return l[g.r.Intn(len(l))]
}

func (g *gen) live(c *cred) bool { return c.dead == "" && c.exp >= g.w.now }

func (g *gen) auth(q *Q, id string) {
	if _, ok := g.t.cur().Clients[id]; !ok && g.chance(0.6) {
		// somebody else tries
		id = g.otherClient(id)
	}
	q.Client, q.Secret = id, g.t.cur().Clients[id].Secret
	if q.Op == "token" && g.chance(0.25) {
		q.CAuth = "body"
	}
}

func (g *gen) newEvent(op string) *Event {
	g.w.nextID++
	return &Event{ID: g.w.nextID, Q: NullQ(op), Alt: Alt{Seed: g.r.Int63()}}
}

// intent makes an event that is to succeed as far as the driver can tell.
func (g *gen) intent(name string) *Event {
	switch name {
	case "authcode", "implicit", "authget":
		e := g.newEvent("authorize")
		id, c := g.client()
		e.Q.Client = id
		g.setRedir(&e.Q, &e.Alt, g.w.str(c.Redirect))
		e.Q.RType = "code"
		if name == "implicit" || name == "authget" && g.chance(0.5) {
			e.Q.RType = "token"
		}
		e.Q.User, e.Q.Pass = g.user()
		e.Q.Scope = g.subset(g.t.cur().Allowed, 0.6)
		e.Q.State = g.state()
		if name == "authget" {
			e.Q.Method = "GET"
		} else if g.chance(0.3) {
			for _, f := range []string{"rtype", "client", "redir", "scope", "state"} {
				if g.chance(0.6) {
					e.Q.QF = append(e.Q.QF, f)
				}
			}
		}
		return e
	case "password", "cc":
		e := g.newEvent("token")
		id, c := g.client()
		if name == "cc" && !c.Conf && g.chance(0.8) {
			id = g.confClient()
		}
		g.auth(&e.Q, id)
		e.Q.Scope = g.subset(g.t.cur().Allowed, 0.6)
		if name == "password" {
			e.Q.Grant = "password"
			e.Q.User, e.Q.Pass = g.user()
		} else {
			e.Q.Grant = "client_credentials"
			if g.chance(0.2) {
				e.Q.User, e.Q.Pass = g.user()
			}
		}
		return e
	case "exchange", "replay":
		c := g.cred(func(c *cred) bool {
			return c.kind == "code" && (name == "replay") == (c.dead == "used") && (name == "replay" || c.exp >= g.w.now)
		})
		if c == nil {
			if name == "replay" {
				return g.intent("exchange")
			}
			return g.intent("authcode")
		}
		return g.exchange(c)
	case "refresh", "refreshold":
		c := g.cred(func(c *cred) bool {
			return c.kind == "refresh" && (name == "refresh") == (c.dead == "") && (name == "refreshold" || c.exp >= g.w.now)
		})
		if c == nil {
			if name == "refreshold" {
				return g.intent("refresh")
			}
			return g.intent(g.pick("password", "cc", "exchange"))
		}
		return g.refresh(c)
	case "introspect", "revoke":
		e := g.newEvent(name)
		c := g.cred(func(c *cred) bool {
			return c.kind != "code" || g.chance(0.1+0.3*float64(b2i(g.p.name == "C11" || g.p.name == "C12")))
		})
		if c == nil {
			return g.intent(g.pick("password", "cc", "authcode"))
		}
		e.Q.Tok = c.label
		g.auth(&e.Q, c.client)
		e.Q.Hint = g.pick("", "", "access_token", "refresh_token")
		return e
	case "resource":
		e := g.newEvent(name)
		c := g.cred(func(c *cred) bool { return c.kind == "access" || g.chance(0.15) })
		if c == nil {
			return g.intent(g.pick("password", "implicit"))
		}
		e.Q.Tok = c.label
		e.Q.Need = g.subset(c.scope, 0.5)
		return e
	case "other":
		e := g.intent(g.pick("authcode", "password", "revoke", "introspect"))
		if e.Q.Op != "authorize" && e.Q.Op != "token" {
			e = g.intent("authcode")
		}
		e.Q.Op = "other"
		return e
	case "tick":
		e := g.newEvent("tick")
		c := g.cred(func(c *cred) bool { return c.exp >= g.w.now-1 })
		if c != nil && g.chance(0.8) {
			e.Q.D = c.exp - g.w.now + []int{-1, 0, 0, 1, 1}[g.r.Intn(5)]
		} else {
			e.Q.D = 1 + g.r.Intn(1500)
			if g.t.cur().TPS == 1 {
				e.Q.D = 1 + g.r.Intn(100)
			}
		}
		if e.Q.D < 0 || e.Q.D+g.w.now > 1500000000 {
			e.Q.D = 0
		}
		return e
	case "smalltick":
		e := g.newEvent("tick")
		e.Q.D = 1 + g.r.Intn(700)
		if g.t.cur().TPS == 1 {
			e.Q.D = 1
		}
		return e
	case "seed":
		return g.seed()
	case "conf":
		return g.conf()
	}
	panic("intent " + name)
}

func (g *gen) confClient() string {
	for _, k := range sortedKeys(g.t.cur().Clients) {
		if g.t.cur().Clients[k].Conf && g.chance(0.7) {
			return k
		}
	}
	k, _ := g.client()
	return k
}

func (g *gen) exchange(c *cred) *Event {
	e := g.newEvent("token")
	e.Q.Grant = "authorization_code"
	e.Q.Tok = c.label
	g.auth(&e.Q, c.client)
	e.Q.Redir = c.redir
	if g.chance(0.15) {
		e.Q.Scope = g.subset(g.t.cur().Allowed, 0.5)
	}
	if g.chance(0.1) {
		e.Q.User, e.Q.Pass = g.user()
	}
	return e
}

func (g *gen) refresh(c *cred) *Event {
	e := g.newEvent("token")
	e.Q.Grant = "refresh_token"
	e.Q.Tok = c.label
	g.auth(&e.Q, c.client)
	if g.chance(0.5) {
		e.Q.Scope = g.subset(c.scope, 0.7)
	}
	if g.chance(0.1) {
		e.Q.User, e.Q.Pass = g.user()
	}
	return e
}

// conf changes what is registered.
func (g *gen) conf() *Event {
	e := g.newEvent("conf")
	old := g.t.cur()
	c := *old
	c.Clients, c.Users = map[string]CfgClient{}, map[string]CfgUser{}
	for k, v := range old.Clients {
		c.Clients[k] = v
	}
	for k, v := range old.Users {
		c.Users[k] = v
	}
	e.Conf = &c
	for n := 1 + g.r.Intn(2)*g.r.Intn(2); n > 0; n-- {
		cs, us := sortedKeys(c.Clients), sortedUsers(c.Users)
		id, u := cs[g.r.Intn(len(cs))], us[g.r.Intn(len(us))]
		cl := c.Clients[id]
		switch g.r.Intn(16) {
		case 0, 1, 2:
			cl.Secret = g.w.intern(g.near(g.w.str(cl.Secret), []string{"S3cr3t-" + g.rndstr(8)}))
		case 3:
			cl.Conf = !cl.Conf
		case 4, 5:
			cl.Redirect = g.w.intern(redirPool[g.r.Intn(len(redirPool))])
		case 6, 7, 8:
			c.Users[u] = CfgUser{Pass: g.w.intern(g.near(g.w.str(c.Users[u].Pass), []string{"Passw0rd-" + g.rndstr(6)}))}
		case 9:
			if len(us) > 1 {
				delete(c.Users, u)
			}
		case 10:
			c.Users[g.w.intern(userPool[g.r.Intn(len(userPool))])] = CfgUser{Pass: g.w.intern("Passw0rd-" + g.rndstr(6))}
		case 11, 14, 15:
			if n := len(g.w.creds); n > 0 && g.chance(0.7) {
				if x := g.w.creds[g.r.Intn(n)].client; x != "" {
					id = x
				}
			}
			if len(cs) > 1 {
				delete(c.Clients, id)
				continue
			}
			if _, ok := c.Clients[id]; !ok {
				continue
			}
		case 12:
			id = g.w.intern(clientPool[g.r.Intn(len(clientPool))])
			cl = CfgClient{Secret: g.w.intern("S3cr3t-" + g.rndstr(8)), Redirect: g.w.intern(redirPool[g.r.Intn(len(redirPool))]), Conf: g.chance(0.7)}
		case 13:
			// gone ones come back
			for _, k := range sortedKeys(g.t.Cfg.Clients) {
				if _, ok := c.Clients[k]; !ok {
					c.Clients[k] = g.t.Cfg.Clients[k]
				}
			}
			for _, k := range sortedUsers(g.t.Cfg.Users) {
				if _, ok := c.Users[k]; !ok {
					c.Users[k] = g.t.Cfg.Users[k]
				}
			}
		}
		c.Clients[id] = cl
	}
	return e
}

func (g *gen) seed() *Event {
	e := g.newEvent("seed")
	id, c := g.client()
	s := &Seeded{Kind: g.pick("access", "refresh", "code", "refresh"), Client: id, Status: "live", Scope: []string{}}
	if g.chance(0.7) {
		s.User, _ = g.user()
	}
	s.Scope = append(s.Scope, g.subset(g.t.cur().Allowed, 0.7)...)
	if g.chance(0.3) {
		// granted under another configuration
		s.Scope = append(s.Scope, g.w.intern(scopePool[g.r.Intn(len(scopePool))]))
	}
	s.Exp = g.w.now + g.r.Intn(5000) - 1000
	if g.chance(0.3) {
		s.Exp = g.w.now + 3600000/(1+999*b2i(g.t.cur().TPS == 1))
	}
	if s.Kind == "code" {
		s.Redir = c.Redirect
	}
	e.Q.Tok = fmt.Sprintf("S%d", e.ID)
	e.Q.Cred = s
	return e
}

// spoil changes something about a request.
func (g *gen) spoil(e *Event) { g.spoilWith(e, g.p.mut) }

// twin is a copy of a request with one to three things changed.
func (g *gen) twin(e *Event) *Event {
	c := *e
	g.w.nextID++
	c.ID = g.w.nextID
	c.Alt.Seed = g.r.Int63()
	c.Alt.Fault = ""
	c.Q.QF = append([]string(nil), e.Q.QF...)
	c.Q.Deco = append([]string(nil), e.Q.Deco...)
	c.Q.Scope = append([]string(nil), e.Q.Scope...)
	c.Q.Need = append([]string(nil), e.Q.Need...)
	for k := 0; k <= g.r.Intn(3); k++ {
		if g.chance(0.5) {
			g.spoilWith(&c, g.p.mut)
		} else {
			g.spoilWith(&c, allFields)
		}
	}
	return &c
}

func (g *gen) spoilWith(e *Event, mut weights) {
	q, a := &e.Q, &e.Alt
	fields := []string{}
	for f, n := range mut {
		if n > 0 && g.applies(q, f) {
			for i := 0; i < n; i++ {
				fields = append(fields, f)
			}
		}
	}
	if len(fields) == 0 {
		return
	}
	sortStrings(fields)
	g.spoilField(q, a, fields[g.r.Intn(len(fields))])
	if g.chance(0.12) {
		g.spoilField(q, a, fields[g.r.Intn(len(fields))])
	}
	if q.Method == "GET" {
		// there is no body that could disagree
		q.Deco = nil
		if !q.FormOK {
			a.Body = "badquery"
		} else {
			a.Body = ""
		}
	}
	switch a.Body {
	case "multipart", "json", "noct":
		if q.FormOK {
			q.Deco = nil // would not be decoys any more
		} else {
			a.Body = "form"
		}
	}
}

func (g *gen) applies(q *Q, f string) bool {
	switch f {
	case "client":
		return q.Op != "resource"
	case "secret", "cauth", "noauth":
		return q.Op == "token" || q.Op == "introspect" || q.Op == "revoke"
	case "user", "pass":
		return q.Op == "authorize" && q.Method == "POST" || q.Grant == "password"
	case "redir":
		return q.Op == "authorize" || q.Grant == "authorization_code"
	case "scope":
		return q.Op == "authorize" || q.Op == "token"
	case "state", "rtype":
		return q.Op == "authorize"
	case "grant":
		return q.Op == "token"
	case "alias":
		return g.w.byLab[q.Tok] != nil
	case "tok", "kind", "foreign", "forge":
		return q.Op == "introspect" || q.Op == "revoke" || q.Op == "resource" || q.Grant == "authorization_code" || q.Grant == "refresh_token"
	case "hint":
		return q.Op == "introspect" || q.Op == "revoke"
	case "hdr", "need":
		return q.Op == "resource"
	case "method", "qf", "deco", "form", "ctype":
		return q.Op == "authorize" || q.Op == "token" || q.Op == "introspect" || q.Op == "revoke"
	}
	return false
}

func (g *gen) spoilField(q *Q, a *Alt, f string) {
	w := g.w
	var clients, secrets, users, passes []string
	// what else the request says
	var own []string
	for _, x := range []string{w.str(q.Client), w.str(q.Secret), w.str(q.User), w.str(q.Pass), w.str(q.Redir), w.str(q.State), q.Tok, q.Tok, w.str(q.Grant)} {
		for _, c := range w.creds {
			if x == q.Tok && x == c.label {
				x = c.str
			}
		}
		if x != "" {
			own = append(own, x)
		}
	}
	for _, k := range sortedKeys(g.t.cur().Clients) {
		clients = append(clients, w.str(k))
		if s := g.t.cur().Clients[k].Secret; s != "" {
			secrets = append(secrets, w.str(s))
		}
	}
	for _, k := range sortedUsers(g.t.cur().Users) {
		users = append(users, w.str(k))
		passes = append(passes, w.str(g.t.cur().Users[k].Pass))
	}
	switch f {
	case "client":
		if u, p := g.user(); g.chance(0.12) && !strings.Contains(w.str(u), ":") && q.CAuth != "none" {
			// a resource owner in place of the client
			q.Client, q.Secret = u, p
			break
		}
		x := g.near(w.str(q.Client), append(append([]string{}, clients...), users...))
		if strings.Contains(x, ":") || (x == "" && q.CAuth == "basic" && g.chance(0.5)) {
			x = "unknown"
		}
		q.Client = w.intern(x)
	case "secret":
		x := g.near(w.str(q.Secret), append(append(append([]string{}, secrets...), passes...), own...))
		q.Secret = w.intern(x)
	case "cauth":
		q.CAuth = g.pick("body", "none", "basic")
	case "noauth":
		q.CAuth = g.pick("none", "body")
		if g.chance(0.5) {
			q.Secret = ""
		}
	case "user":
		if k, c := g.client(); g.chance(0.2) && c.Secret != "" {
			// a client in place of the resource owner
			q.User, q.Pass = w.intern(w.str(k)), w.intern(w.str(c.Secret))
			break
		}
		q.User = w.intern(g.near(w.str(q.User), append(append([]string{}, users...), clients...)))
	case "pass":
		q.Pass = w.intern(g.near(w.str(q.Pass), append(append(append([]string{}, passes...), secrets...), own...)))
	case "redir":
		switch g.r.Intn(5) {
		case 0:
			q.Redir = ""
		case 1:
			q.Redir = "!bad"
			a.Redir = badRedirs[g.r.Intn(len(badRedirs))]
			if g.chance(0.3) {
				a.Redir = url.QueryEscape(w.str(q.Redir) + "#frag")
				if c, ok := g.t.cur().Clients[q.Client]; ok {
					a.Redir = url.QueryEscape(w.str(c.Redirect) + g.pick("#", "#frag", "#a=b"))
				}
			}
			if !badRedirect(a.Redir) {
				a.Redir = "%zz"
			}
		default:
			g.setRedir(q, a, g.nearRedir(w.str(q.Redir)))
		}
	case "scope":
		items := append([]string{}, q.Scope...)
		x := scopePool[g.r.Intn(len(scopePool))]
		if len(g.t.cur().Allowed) > 0 && g.chance(0.5) {
			x = strings.Replace(g.near(w.str(g.t.cur().Allowed[g.r.Intn(len(g.t.cur().Allowed))]), nil), " ", "", -1)
			x = strings.TrimSpace(strings.Replace(x, "\x00", "0", -1))
		}
		if x != "" {
			items = append(items, w.intern(x))
			if g.chance(0.5) {
				g.r.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
			}
		}
		if g.chance(0.2) {
			items = append(items, g.subset(g.t.cur().Allowed, 0.8)...)
		}
		if len(g.t.Joint) > 0 && g.chance(0.5) {
			items = append([]string{}, g.t.Joint...)
		}
		q.Scope = items
	case "state":
		q.State = g.state()
		if g.chance(0.1) {
			q.State = w.intern(g.rndstr(3000))
		}
	case "rtype":
		q.RType = w.intern(g.pick("", "Token", "code token", "id_token", "none", "token ", "implicit", "CODE", "password"))
	case "grant":
		q.Grant = w.intern(g.pick("", "Password", "implicit", "password ", "refresh-token", "token", "code", "urn:ietf:params:oauth:grant-type:jwt-bearer",
			"password", "client_credentials", "authorization_code", "refresh_token", "CLIENT_CREDENTIALS"))
	case "tok":
		g.spoilField(q, a, g.pick("kind", "foreign", "forge", "forge"))
	case "kind":
		if c := g.cred(func(c *cred) bool { return c.label != q.Tok }); c != nil {
			q.Tok = c.label
		}
	case "foreign":
		q.Client = g.otherClient(q.Client)
		q.Secret = g.t.cur().Clients[q.Client].Secret
		if q.Op == "resource" {
			g.spoilField(q, a, "kind")
		} else if q.Redir != "" && q.Redir != "!bad" && g.chance(0.5) {
			// a client of its own right in every respect
			g.setRedir(q, a, w.str(g.t.cur().Clients[q.Client].Redirect))
		}
	case "alias":
		a.Mode = g.pick("alias", "aliassig", "aliasnl")
		if q.Op == "resource" {
			a.Mode = "aliassig"
		}
	case "forge":
		a.Base = q.Tok
		if c := g.cred(func(c *cred) bool { return true }); c != nil && g.chance(0.3) {
			a.Base = c.label
		}
		switch g.r.Intn(6) {
		case 0:
			q.Tok = ""
			if q.Op == "resource" {
				q.Hdr = "bad"
			}
		case 1, 2:
			q.Tok = "!unk"
			a.Mode = unkModes[g.r.Intn(len(unkModes))]
		default:
			q.Tok = "!bad"
			a.Mode = badModes[g.r.Intn(len(badModes))]
		}
	case "hint":
		q.Hint = w.intern(g.pick("access_token", "refresh_token", "foo", "Access_Token", "code", "authorization_code", "access_token ", "id_token", "bearer"))
	case "hdr":
		q.Hdr = g.pick("none", "bad", "bad")
	case "need":
		q.Need = append(q.Need, w.intern(scopePool[g.r.Intn(len(scopePool))]))
		if g.chance(0.5) && len(g.t.cur().Allowed) > 0 {
			x := strings.TrimSpace(strings.Replace(g.near(w.str(g.t.cur().Allowed[g.r.Intn(len(g.t.cur().Allowed))]), nil), " ", "", -1))
			x = strings.Replace(strings.Replace(x, "\"", "", -1), ",", "", -1)
			if x != "" {
				q.Need = append(q.Need, w.intern(x))
			}
		}
	case "method":
		q.Method = g.pick("GET", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "post", "FOO")
	case "qf":
		q.QF = nil
		var l []string
		switch q.Op {
		case "authorize":
			l = []string{"rtype", "client", "redir", "scope", "state", "user", "pass"}
		case "token":
			l = []string{"grant", "client", "secret", "user", "pass", "scope", "redir", "tok"}
		default:
			l = []string{"tok", "hint"}
		}
		if g.chance(0.3) {
			q.QF = l
		} else {
			q.QF = []string{l[g.r.Intn(len(l))]}
			if g.chance(0.4) {
				q.QF = append(q.QF, l[g.r.Intn(len(l))])
			}
		}
		q.QF = g.onlyParams(q, q.QF)
		var left []string
		for _, d := range q.Deco {
			if !has(q.QF, d) {
				left = append(left, d)
			}
		}
		q.Deco = left
	case "deco":
		var l []string
		switch q.Op {
		case "authorize":
			l = []string{"rtype", "client", "redir", "scope", "state", "user", "pass"}
		case "token":
			l = []string{"grant", "user", "pass", "scope", "redir", "tok"}
			if q.CAuth == "body" {
				l = append(l, "client", "secret")
			}
		default:
			l = []string{"tok", "hint"}
		}
		q.Deco = nil
		for _, d := range g.subset(l, 0.5) {
			if !has(q.QF, d) && !has(q.Deco, d) && q.Method != "GET" {
				q.Deco = append(q.Deco, d)
			}
		}
	case "form":
		q.FormOK = false
		a.Body = g.pick("form", "badquery", "semicolon", "badct", "nobody")
		if q.Method == "GET" {
			a.Body = "badquery"
		}
	case "ctype":
		if q.Method == "POST" {
			a.Body = g.pick("multipart", "json", "noct")
		}
	}
}

// onlyParams keeps the fields that are sent as parameters at all.
func (g *gen) onlyParams(q *Q, l []string) []string {
	var r []string
	for _, f := range l {
		if q.Op == "token" && q.CAuth != "body" && (f == "client" || f == "secret") {
			continue
		}
		if !has(r, f) {
			r = append(r, f)
		}
	}
	return r
}

func badRedirect(raw string) bool {
	s, err := url.QueryUnescape(raw)
	if err != nil {
		return true
	}
	if s == "" {
		return false
	}
	_, err = url.ParseRequestURI(s)
	return err != nil || strings.Contains(s, "#")
}

func sortStrings(l []string) {
	for i := 1; i < len(l); i++ {
		for j := i; j > 0 && l[j] < l[j-1]; j-- {
			l[j], l[j-1] = l[j-1], l[j]
		}
	}
}

// note keeps the driver's idea of which credentials are still good.
func (w *world) note(e *Event) {
	q, o := &e.R, &e.O
	mark := func(l, why string) {
		if c := w.byLab[l]; c != nil && c.dead == "" {
			c.dead = why
		}
	}
	served := o.Kind == "tokens" || o.Kind == "lost"
	switch {
	case q.Op == "token" && w.str(q.Grant) == "authorization_code":
		c := w.byLab[q.Tok]
		if c != nil && c.kind == "code" {
			if served {
				mark(q.Tok, "used")
			} else if c.dead == "used" && o.Kind == "error" && o.Err == "invalid_grant" {
				for _, d := range w.creds {
					if d.root == c.label {
						mark(d.label, "replayed")
					}
				}
			}
		}
	case q.Op == "token" && w.str(q.Grant) == "refresh_token" && served:
		mark(q.Tok, "rotated")
	case q.Op == "revoke" && (o.Kind == "ok" || o.Kind == "lost"):
		if c := w.byLab[q.Tok]; c != nil && c.kind != "code" {
			mark(q.Tok, "revoked")
		}
	}
}

// state draws a state value: of the pool, or any bytes.
func (g *gen) state() string {
	if g.p.name != "C21" || g.chance(0.6) {
		return g.w.intern(statePool[g.r.Intn(len(statePool))])
	}
	b := make([]byte, 1+g.r.Intn(24))
	for k := range b {
		b[k] = byte(g.r.Intn(256))
		if g.chance(0.3) {
			b[k] = "%&=+#; a\xc3\xa4\xff\xe2\x80"[g.r.Intn(14)]
		}
	}
	return g.w.intern(string(b))
}
