package lib

import (
	"bufio"
	"bytes"
	"io"
	"mime"
	"net/http"
	"strconv"
	"strings"
)

// recorder is a response writer that behaves like that of net/http: the
// headers count as they are when the status is written.
type recorder struct {
	h      http.Header
	sent   http.Header
	status int
	body   bytes.Buffer
}

func newRecorder() *recorder { return &recorder{h: http.Header{}} }

func (r *recorder) Header() http.Header { return r.h }
func (r *recorder) WriteHeader(s int) {
	if r.status != 0 {
		return
	}
	r.status = s
	r.sent = r.h.Clone()
}
func (r *recorder) Write(p []byte) (int, error) {
	if r.status == 0 {
		r.WriteHeader(200)
	}
	return r.body.Write(p)
}

// result is the response as the client gets it.
func (r *recorder) result() *http.Response {
	if r.status == 0 {
		r.WriteHeader(200)
	}
	return &http.Response{
		StatusCode: r.status, Status: strconv.Itoa(r.status) + " " + http.StatusText(r.status), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: r.sent.Clone(), Body: io.NopCloser(bytes.NewReader(r.body.Bytes())), ContentLength: int64(r.body.Len()),
	}
}

// received turns a request built by the client into the one the server reads.
func received(req *http.Request) (*http.Request, error) {
	var b bytes.Buffer
	if err := req.Write(&b); err != nil {
		return nil, err
	}
	return http.ReadRequest(bufio.NewReader(&b))
}

// facts names the headers the specification speaks about.
func facts(h http.Header) []string {
	r := []string{}
	if mt, ps, err := mime.ParseMediaType(h.Get("Content-Type")); err == nil && mt == "application/json" &&
		(ps["charset"] == "" || strings.EqualFold(ps["charset"], "utf-8")) {
		r = append(r, "json")
	}
	if strings.Contains(strings.ToLower(h.Get("Cache-Control")), "no-store") {
		r = append(r, "nostore")
	}
	if strings.Contains(strings.ToLower(h.Get("Pragma")), "no-cache") {
		r = append(r, "pragma")
	}
	switch strings.ToLower(h.Get("Referrer-Policy")) {
	case "origin", "no-referrer", "same-origin", "strict-origin":
		r = append(r, "referrer")
	}
	return r
}

// decode describes a written response.
func (x *run) decode(w *recorder, base string, err error) M {
	if w.status == 0 {
		// nothing was written: net/http answers 200 with no body
		m := M{"kind": "nothing", "status": 0, "base": false, "query": []Pair{}, "fragment": []Pair{}, "doc": []Pair{}, "hd": []string{}, "empty": true}
		return m
	}
	m := M{"kind": "plain", "status": w.status, "base": false, "query": []Pair{}, "fragment": []Pair{}, "doc": []Pair{}, "hd": facts(w.sent),
		"empty": w.body.Len() == 0}
	x.Info["response"] = strconv.Itoa(w.status) + " " + clip(headerText(w.sent)) + " | " + clip(w.body.String())
	if l, ok := w.sent["Location"]; ok {
		m["kind"] = "badredirect"
		if len(l) == 1 && err == nil {
			loc := l[0]
			frag, query := "", ""
			if i := strings.IndexByte(loc, '#'); i >= 0 {
				loc, frag = loc[:i], loc[i+1:]
			}
			if i := strings.IndexByte(loc, '?'); i >= 0 {
				loc, query = loc[:i], loc[i+1:]
			}
			q, ok1 := form(query)
			f, ok2 := form(frag)
			if ok1 && ok2 {
				m["kind"] = "redirect"
				m["base"] = loc == base
				m["query"] = x.pairs(q)
				m["fragment"] = x.pairs(f)
			}
		}
		return m
	}
	if doc, ok := object(w.body.Bytes()); ok && has(facts(w.sent), "json") {
		if err == nil {
			m["kind"] = "json"
		}
		m["doc"] = x.pairs(doc)
		return m
	}
	if c := w.sent["Www-Authenticate"]; len(c) == 1 && len(c[0]) >= 7 && strings.EqualFold(c[0][:7], "bearer ") {
		if ps, ok := challenge(c[0][7:]); ok && err == nil {
			m["kind"] = "bearer"
			m["doc"] = x.pairs(ps)
		} else {
			m["kind"] = "badbearer"
		}
	}
	return m
}

func has(l []string, s string) bool {
	for _, y := range l {
		if y == s {
			return true
		}
	}
	return false
}

func headerText(h http.Header) string {
	var b bytes.Buffer
	_ = h.Write(&b)
	return strings.ReplaceAll(b.String(), "\r\n", "; ")
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// everything that was written, for leak checks
func (r *recorder) all() string {
	return headerText(r.sent) + r.body.String()
}
