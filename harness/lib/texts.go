// Package lib runs the functions of the library on cases enumerated by the
// specification (LibCases.tla) and records what they did (Lib.tla).
package lib

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/url"
	"regexp"
	"sort"
	"strings"
	"unicode"
)

// Case is a structural case; which fields are present depends on the op.
type Case map[string]interface{}

func (c Case) str(k string) string {
	s, _ := c[k].(string)
	return s
}
func (c Case) num(k string) int {
	f, _ := c[k].(float64)
	return int(f)
}
func (c Case) flag(k string) bool {
	b, _ := c[k].(bool)
	return b
}
func (c Case) has(k string) bool {
	l, _ := c["has"].([]interface{})
	for _, x := range l {
		if x == k {
			return true
		}
	}
	return false
}

// bytesOf reads a sequence of bytes.
func bytesOf(v interface{}) []byte {
	l, _ := v.([]interface{})
	r := make([]byte, 0, len(l))
	for _, x := range l {
		f, _ := x.(float64)
		r = append(r, byte(f))
	}
	return r
}

func seqOf(v interface{}) [][]byte {
	l, _ := v.([]interface{})
	var r [][]byte
	for _, x := range l {
		r = append(r, bytesOf(x))
	}
	return r
}

func ints(s string) []int {
	r := make([]int, 0, len(s))
	for i := 0; i < len(s); i++ {
		r = append(r, int(s[i]))
	}
	return r
}

func intss(l []string) [][]int {
	r := make([][]int, 0, len(l))
	for _, s := range l {
		r = append(r, ints(s))
	}
	return r
}

// M is a record of the specification.
type M map[string]interface{}

// Pair is a parameter or field.
type Pair = [2]string

// run is one execution of one case.
type run struct {
	c        Case
	r        *rand.Rand
	seed     int64
	deep     bool
	together bool
	kept     []kept
	lists    [][]string
	lab      map[string]string
	Info     map[string]string // label -> text
}

var simple = regexp.MustCompile(`^[A-Za-z0-9_.-]{1,30}$`)

// label names a text; equal texts have equal labels.
func (x *run) label(s string) string {
	if s == "" || simple.MatchString(s) {
		return s
	}
	if l, ok := x.lab[s]; ok {
		return l
	}
	l := fmt.Sprintf("~%d", len(x.lab)+1)
	x.lab[s] = l
	if len(s) > 300 {
		x.Info[l] = fmt.Sprintf("%q... (%d bytes)", s[:300], len(s))
	} else {
		x.Info[l] = fmt.Sprintf("%q", s)
	}
	return l
}

func (x *run) pairs(l []Pair) []Pair {
	r := make([]Pair, 0, len(l))
	for _, p := range l {
		r = append(r, Pair{x.label(p[0]), x.label(p[1])})
	}
	return r
}

func (x *run) pick(l ...string) string { return l[x.r.Intn(len(l))] }

var pieces = []string{
	"a", "b", "Z", "0", "9", "abc", "xyz", " ", "  ", "+", "%", "%20", "%2B", "%25", "%zz", "&", "=", "?", "#", ";", ",", ":", "/", "//", "\\",
	"\"", "'", "<", ">", "!", "*", "(", ")", "[", "]", "{", "}", "|", "^", "`", "~", "@", "$", "é", "ü", "日本", "😀", "\u00a0", "\u2028", "&amp;", "\\u0041",
	"\t", "\n", "\r\n", "\x00", "\x01", "\x1f", "\x7f", "-", "_", ".", "..", "code=", "&state=x", "#frag", "null", "true", "\"}", "\u202e", "e\u0301",
}

// text draws an arbitrary non-empty text of valid UTF-8.
func (x *run) text() string {
	switch x.r.Intn(8) {
	case 0:
		return x.pick("foo", "a", "0", "state", "null", "true", "code", "error", "x y", "1+1=2", "100%", "a&b=c", "ä", " ", "+", "%2F")
	case 1:
		return strings.Repeat(x.pick("long", "a b", "%", "é"), 1+x.r.Intn(120))
	case 2:
		var sb strings.Builder
		for i := 0; i <= x.r.Intn(12); i++ {
			c := rune(x.r.Intn(0x3000))
			if c >= 0xd800 && c <= 0xdfff {
				c = 'x'
			}
			sb.WriteRune(c)
		}
		return sb.String()
	}
	var sb strings.Builder
	for i := 0; i <= x.r.Intn(10); i++ {
		sb.WriteString(pieces[x.r.Intn(len(pieces))])
	}
	return sb.String()
}

// param is a text for the parameters of a bearer challenge: no quotes,
// backslashes or control characters, which have no place there.
func (x *run) param() string {
	for {
		s := strings.Map(func(c rune) rune {
			if c == '"' || c == '\\' || unicode.IsControl(c) {
				return -1
			}
			return c
		}, x.text())
		s = strings.TrimSpace(s)
		if s != "" {
			return s
		}
	}
}

// item is a scope item: no whitespace.
func (x *run) item() string {
	for {
		s := strings.Map(func(c rune) rune {
			if unicode.IsSpace(c) {
				return -1
			}
			return c
		}, x.text())
		if s != "" {
			return s
		}
	}
}

func (x *run) items(n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, x.item())
	}
	return roomy(l)
}

// uri draws a valid redirect URI with n query parameters, and gives the part
// before the query and the parameters.
func (x *run) uri(n int) (string, string, []Pair) {
	base := x.pick("http://example.com/callback", "https://example.com:8443/cb/", "http://localhost/a%2Fb", "http://127.0.0.1:9000/",
		"https://user:pw@example.com/x", "http://[::1]:80/cb", "myapp://auth/return", "https://example.com/a%20b/c;d", "https://EXAMPLE.com/%C3%A9",
		"https://example.com/cb/..%2f", "/relative/cb", "https://example.com/+plus+", "http://example.com")
	var ps []Pair
	var qs []string
	for i := 0; i < n; i++ {
		k, v := x.text(), ""
		if x.r.Intn(2) == 0 {
			k = x.pick("a", "foo", "a b", "keep")
		}
		if x.r.Intn(6) != 0 {
			v = x.text()
		}
		if x.r.Intn(5) == 0 && len(ps) > 0 {
			k = ps[0][0]
		}
		if x.r.Intn(8) == 0 {
			// characters that may stand for themselves in a query
			v = x.pick("1;2", "/a/b?c", "12:30", "a,b", "x@y", "(z)!*'", "$1", "k=v", "~", ";", "https://example.com/?q")
			ps = append(ps, Pair{k, v})
			qs = append(qs, url.QueryEscape(k)+"="+v)
			continue
		}
		ps = append(ps, Pair{k, v})
		qs = append(qs, url.QueryEscape(k)+"="+url.QueryEscape(v))
	}
	if n == 0 {
		return base, base, ps
	}
	return base + "?" + strings.Join(qs, "&"), base, ps
}

// form decodes form encoded parameters, independently of net/url.
func form(s string) ([]Pair, bool) {
	var r []Pair
	if s == "" {
		return r, true
	}
	for _, part := range strings.Split(s, "&") {
		if part == "" {
			continue
		}
		k, v := part, ""
		if i := strings.IndexByte(part, '='); i >= 0 {
			k, v = part[:i], part[i+1:]
		}
		dk, ok1 := unform(k)
		dv, ok2 := unform(v)
		if !ok1 || !ok2 {
			return nil, false
		}
		r = append(r, Pair{dk, dv})
	}
	return r, true
}

func unform(s string) (string, bool) {
	var b []byte
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c == '+':
			b = append(b, ' ')
		case c == '%':
			if i+2 >= len(s) {
				return "", false
			}
			h, l := nib(s[i+1]), nib(s[i+2])
			if h < 0 || l < 0 {
				return "", false
			}
			b = append(b, byte(h<<4|l))
			i += 2
		case c <= ' ' || c >= 0x7f || c == '#':
			return "", false
		default:
			b = append(b, c)
		}
	}
	return string(b), true
}

func nib(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// object reads one JSON object into its members, in order, duplicates kept.
func object(data []byte) ([]Pair, bool) {
	if !json.Valid(data) {
		return nil, false
	}
	d := json.NewDecoder(strings.NewReader(string(data)))
	t, err := d.Token()
	if err != nil || t != json.Delim('{') {
		return nil, false
	}
	var r []Pair
	for d.More() {
		k, err := d.Token()
		if err != nil {
			return nil, false
		}
		var raw json.RawMessage
		if err := d.Decode(&raw); err != nil {
			return nil, false
		}
		r = append(r, Pair{k.(string), scalar(raw)})
	}
	return r, true
}

func scalar(raw json.RawMessage) string {
	var s string
	if len(raw) > 0 && raw[0] == '"' && json.Unmarshal(raw, &s) == nil {
		return s
	}
	var v interface{}
	_ = json.Unmarshal(raw, &v)
	if _, ok := v.(float64); ok {
		return string(raw)
	}
	b, _ := json.Marshal(v)
	return string(b)
}

// challenge reads the parameters of a bearer challenge.
func challenge(s string) ([]Pair, bool) {
	var r []Pair
	for len(s) > 0 {
		i := strings.IndexByte(s, '=')
		if i < 0 {
			return nil, false
		}
		k := strings.TrimSpace(s[:i])
		s = s[i+1:]
		if s == "" || s[0] != '"' {
			return nil, false
		}
		s = s[1:]
		var b []byte
		done := false
		for len(s) > 0 {
			c := s[0]
			s = s[1:]
			if c == '\\' && len(s) > 0 {
				b = append(b, s[0])
				s = s[1:]
				continue
			}
			if c == '"' {
				done = true
				break
			}
			b = append(b, c)
		}
		if !done {
			return nil, false
		}
		r = append(r, Pair{k, string(b)})
		s = strings.TrimLeft(s, " ")
		if s == "" {
			break
		}
		if s[0] != ',' {
			return nil, false
		}
		s = strings.TrimLeft(s[1:], " ")
		if s == "" {
			return nil, false
		}
	}
	return r, true
}

func sortedPairs(l []Pair) []Pair {
	sort.Slice(l, func(i, j int) bool { return l[i][0]+"\x00"+l[i][1] < l[j][0]+"\x00"+l[j][1] })
	return l
}
