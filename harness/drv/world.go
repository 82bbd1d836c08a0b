package drv

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"a.verif/h/rnd"
	"github.com/256dpi/oauth2/v2"
)

// cred is what the driver remembers about a credential it was given.
type cred struct {
	label  string
	str    string
	kind   string // code, access, refresh
	client string // label
	user   string
	scope  []string
	redir  string
	exp    int // tick of expiry according to the configuration
	root   string
	from   string // refresh token it was refreshed from
	dead   string // why the driver believes it to be dead: "", used, rotated, revoked, replayed
}

// world is one live server together with the names of everything.
type world struct {
	t      *Trace
	srv    *oauth2.Server
	labels map[string]string // concrete string -> label
	creds  []*cred
	byStr  map[string]*cred
	byLab  map[string]*cred
	now    int
	base   time.Time // the full second the trace starts in
	nextID int
	anon   int
}

// str is the concrete string of a label.
func (w *world) str(l string) string {
	if s, ok := w.t.Strings[l]; ok {
		return s
	}
	return l
}

// intern gives the label of a concrete string.
func (w *world) intern(s string) string {
	if s == "" {
		return ""
	}
	if l, ok := w.labels[s]; ok {
		return l
	}
	w.anon++
	l := fmt.Sprintf("x%d", w.anon)
	for w.t.Strings[l] != "" {
		w.anon++
		l = fmt.Sprintf("x%d", w.anon)
	}
	w.t.Strings[l] = s
	w.labels[s] = l
	return l
}

func (w *world) strs(ls []string) []string {
	var r []string
	for _, l := range ls {
		r = append(r, w.str(l))
	}
	return r
}

func (w *world) ticks(d int) time.Duration {
	if w.t.cur().TPS == 1 {
		return time.Duration(d) * time.Second
	}
	return time.Duration(d) * time.Millisecond
}

// newWorld builds the server a trace talks to. It must run inside a bubble.
func newWorld(t *Trace) *world {
	rnd.S.Reset(t.Seed)
	rnd.S.Chunk = t.Chunk
	w := &world{t: t, labels: map[string]string{}, byStr: map[string]*cred{}, byLab: map[string]*cred{}}
	for l, s := range t.Strings {
		w.labels[s] = l
	}
	t.now = nil
	w.base = time.Now().Truncate(time.Second)
	w.srv = newServer(t, w)
	return w
}

func newServer(t *Trace, w *world) *oauth2.Server {
	allowed := oauth2.Scope(w.strs(t.Cfg.Allowed))
	if len(t.Joint) > 0 {
		allowed = append(allowed, strings.Join(w.strs(t.Joint), " "))
	}
	srv := oauth2.NewServer(oauth2.ServerConfig{
		Secret:                    append([]byte(nil), t.Secret...),
		KeyLength:                 t.Cfg.KLen,
		AllowedScope:              allowed,
		AccessTokenLifespan:       w.ticks(t.Cfg.AL),
		RefreshTokenLifespan:      w.ticks(t.Cfg.RL),
		AuthorizationCodeLifespan: w.ticks(t.Cfg.CL),
	})
	for id, c := range t.Cfg.Clients {
		srv.Clients[w.str(id)] = &oauth2.ServerEntity{
			Secret: w.str(c.Secret), RedirectURI: w.str(c.Redirect), Confidential: c.Conf,
		}
	}
	for id, u := range t.Cfg.Users {
		srv.Users[w.str(id)] = &oauth2.ServerEntity{Secret: w.str(u.Pass)}
	}
	return srv
}

func (w *world) stored() [3]int {
	return [3]int{len(w.srv.AccessTokens), len(w.srv.RefreshTokens), len(w.srv.AuthorizationCodes)}
}

// ---------------------------------------------------------------------------
// tokens, independently of the library

var b64 = base64.RawURLEncoding

func sign(secret, key []byte) []byte {
	h := hmac.New(sha256.New, secret)
	h.Write(key)
	return h.Sum(nil)
}

func tokenString(key, sig []byte) string {
	return b64.EncodeToString(key) + "." + b64.EncodeToString(sig)
}

// classify says what a presented string is to the specification: a known
// credential, "" , "!unk" (signed with the secret), "!bad", or "alias" (decodes
// to a signed token but is not its canonical form; not specified).
func (w *world) classify(s string) string {
	if s == "" {
		return ""
	}
	if c, ok := w.byStr[s]; ok {
		return c.label
	}
	parts := strings.Split(s, ".")
	if len(parts) != 2 {
		return "!bad"
	}
	key, err := b64.DecodeString(parts[0])
	if err != nil {
		return "!bad"
	}
	sig, err := b64.DecodeString(parts[1])
	if err != nil {
		return "!bad"
	}
	if !hmac.Equal(sign(w.t.Secret, key), sig) {
		return "!bad"
	}
	if tokenString(key, sig) != s {
		return "alias"
	}
	return "!unk"
}

// badModes are the ways to make a string that is no token of this server.
var badModes = []string{"flipkey", "flipsig", "trunc", "append", "swap", "resign", "garbage",
	"three", "keyonly", "sigonly", "dotend", "dotstart", "std", "pad", "space", "upper", "lower", "label",
	"sigkey", "double", "emptykey", "emptysig", "zerosig", "hexsig", "nul", "long", "flipkeyresign", "shortsig", "longsig", "char", "char", "char"}

// makeBad builds the string for alteration mode of base (a token string or "").
func (w *world) makeBad(mode, base string, r *rand.Rand) string {
	if base == "" {
		key := make([]byte, w.t.cur().KLen)
		r.Read(key)
		base = tokenString(key, sign(w.t.Secret, key))
	}
	parts := strings.Split(base, ".")
	if len(parts) != 2 {
		return "broken"
	}
	key, _ := b64.DecodeString(parts[0])
	sig, _ := b64.DecodeString(parts[1])
	flip := func(b []byte) []byte {
		c := append([]byte(nil), b...)
		if len(c) > 0 {
			c[r.Intn(len(c))] ^= 1 << uint(r.Intn(8))
		}
		return c
	}
	s := ""
	switch mode {
	case "flipkey":
		s = tokenString(flip(key), sig)
	case "flipsig":
		s = tokenString(key, flip(sig))
	case "trunc":
		s = base[:r.Intn(len(base))]
	case "append":
		s = base + string("Aa0_-"[r.Intn(5)])
	case "swap":
		s = parts[1] + "." + parts[0]
	case "resign":
		other := append([]byte("other"), w.t.Secret...)
		n := len(w.t.Secret)
		switch r.Intn(6) {
		case 0, 1:
			other = flip(w.t.Secret)
		case 2:
			other = append([]byte(nil), w.t.Secret[:1+r.Intn(n-1)]...)
		case 3:
			other = append([]byte(nil), w.t.Secret...)
			other[n-1] ^= 1
		case 4:
			k := []int{8, 16, 24, 32, 48, 64}[r.Intn(6)]
			if k < n {
				other = append([]byte(nil), w.t.Secret[:k]...)
				if r.Intn(2) == 0 {
					other = append(other, []byte("and something else")...)
				}
			}
		}
		s = tokenString(key, sign(other, key))
	case "garbage":
		s = []string{"invalid", "x", ".", "..", "a.b", "null", "true", "0", "%", "Bearer", "\u00e4\u00f6\u00fc", "{}", "a b", "=.="}[r.Intn(14)]
	case "three":
		s = base + "." + parts[1]
	case "keyonly":
		s = parts[0]
	case "sigonly":
		s = parts[1]
	case "dotend":
		s = base + "."
	case "dotstart":
		s = "." + base
	case "std":
		s = base64.RawStdEncoding.EncodeToString(key) + "." + base64.RawStdEncoding.EncodeToString(sig)
	case "pad":
		s = base64.URLEncoding.EncodeToString(key) + "." + base64.URLEncoding.EncodeToString(sig)
	case "space":
		s = []string{" " + base, base + " ", parts[0] + " ." + parts[1], parts[0] + ". " + parts[1], base + "\t"}[r.Intn(5)]
	case "upper":
		s = strings.ToUpper(base)
	case "lower":
		s = strings.ToLower(base)
	case "label":
		s = "." + parts[1]
	case "sigkey":
		s = tokenString(sig, key)
	case "double":
		s = base + base
	case "emptykey":
		s = "." + parts[1]
	case "emptysig":
		s = parts[0] + "."
	case "zerosig":
		s = tokenString(key, make([]byte, 32))
	case "hexsig":
		s = parts[0] + "." + fmt.Sprintf("%x", sig)
	case "nul":
		s = base + "\x00"
	case "long":
		s = base + strings.Repeat("A", 4000)
	case "flipkeyresign":
		k := flip(key)
		s = tokenString(k, sign([]byte(string(w.t.Secret)+"x"), k))
	case "shortsig":
		s = tokenString(key, sig[:r.Intn(len(sig))])
	case "char":
		b := make([]byte, 1+r.Intn(3)*r.Intn(2))
		for i := range b {
			b[i] = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~aZ09"[r.Intn(36)]
		}
		s = string(b)
	case "longsig":
		s = tokenString(key, append(append([]byte(nil), sig...), sig[0]))
	default:
		s = "invalid"
	}
	if w.classify(s) != "!bad" {
		s = "no.token"
	}
	return s
}

var unkModes = []string{"fresh", "prefix", "extended", "emptykey", "longkey", "nearkey", "sigaskey", "secretkey"}

// makeUnk builds a correctly signed string that was never issued.
func (w *world) makeUnk(mode, base string, r *rand.Rand) string {
	key := make([]byte, w.t.cur().KLen)
	r.Read(key)
	if base != "" {
		parts := strings.Split(base, ".")
		bk, _ := b64.DecodeString(parts[0])
		bs, _ := b64.DecodeString(parts[1])
		switch mode {
		case "prefix":
			key = bk[:len(bk)-1]
		case "extended":
			key = append(append([]byte(nil), bk...), byte(r.Intn(256)))
		case "nearkey":
			key = append([]byte(nil), bk...)
			key[r.Intn(len(key))] ^= 1 << uint(r.Intn(8))
		case "sigaskey":
			key = bs
		}
	}
	switch mode {
	case "emptykey":
		key = nil
	case "longkey":
		key = make([]byte, 200)
		r.Read(key)
	case "secretkey":
		key = append([]byte(nil), w.t.Secret...)
	}
	s := tokenString(key, sign(w.t.Secret, key))
	if w.classify(s) != "!unk" {
		key = make([]byte, 16)
		r.Read(key)
		s = tokenString(key, sign(w.t.Secret, key))
	}
	return s
}

// present is the concrete string for the token of a request.
func (w *world) present(q *Q, a *Alt, r *rand.Rand) string {
	base := ""
	if c := w.byLab[a.Base]; c != nil {
		base = c.str
	}
	switch q.Tok {
	case "":
		return ""
	case "!bad":
		if a.Mode == "raw" {
			if w.classify(string(a.Text)) != "!bad" {
				return "no.token"
			}
			return string(a.Text)
		}
		return w.makeBad(a.Mode, base, r)
	case "!unk":
		return w.makeUnk(a.Mode, base, r)
	}
	if c := w.byLab[q.Tok]; c != nil {
		if strings.HasPrefix(a.Mode, "alias") {
			return w.alias(c.str, a.Mode, r)
		}
		return c.str
	}
	return "" // refers to a credential that was never issued
}

// alias writes a token in another way that decodes to the same bytes: the
// unused bits at the end of a part set, or line breaks in between.
func (w *world) alias(str, mode string, r *rand.Rand) string {
	const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
	parts := strings.Split(str, ".")
	if len(parts) != 2 {
		return str
	}
	k := 1
	if mode == "alias" && r.Intn(2) == 0 {
		k = 0
	}
	p := parts[k]
	free := map[int]int{2: 4, 3: 2}[len(p)%4]
	if mode == "aliasnl" || free == 0 {
		i := r.Intn(len(p) + 1)
		p = p[:i] + []string{"\n", "\r", "\r\n"}[r.Intn(3)] + p[i:]
	} else {
		v := strings.IndexByte(abc, p[len(p)-1])
		p = p[:len(p)-1] + string(abc[v^(1+r.Intn(1<<uint(free)-1))])
	}
	parts[k] = p
	s := parts[0] + "." + parts[1]
	if w.classify(s) != "alias" {
		return str
	}
	return s
}
