// Package drv drives the real library and records what it does as traces of
// abstract requests and answers for the specification in /verif/spec.
package drv

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"
)

// Q is an abstract request, the record NullReq of OAuth2.tla. Only fields that
// differ from NullReq are written.
type Q struct {
	Op     string   `json:"op"`
	Method string   `json:"method"`
	FormOK bool     `json:"formok"`
	QF     []string `json:"qf"`
	Deco   []string `json:"deco"`
	CAuth  string   `json:"cauth"`
	Client string   `json:"client"`
	Secret string   `json:"secret"`
	Grant  string   `json:"grant"`
	RType  string   `json:"rtype"`
	User   string   `json:"user"`
	Pass   string   `json:"pass"`
	Scope  []string `json:"scope"`
	Redir  string   `json:"redir"`
	State  string   `json:"state"`
	Tok    string   `json:"tok"`
	Hint   string   `json:"hint"`
	Hdr    string   `json:"hdr"`
	Need   []string `json:"need"`
	D      int      `json:"d"`
	Fault  string   `json:"fault"`
	Cred   *Seeded  `json:"cred"`
}

// Seeded is a credential placed into the server's store directly.
type Seeded struct {
	Kind   string   `json:"kind"`
	Client string   `json:"client"`
	User   string   `json:"user"`
	Scope  []string `json:"scope"`
	Exp    int      `json:"exp"`
	Root   string   `json:"root"`
	Redir  string   `json:"redir"`
	Status string   `json:"status"`
}

// NullQ is NullReq.
func NullQ(op string) Q {
	return Q{Op: op, Method: "POST", FormOK: true, CAuth: "basic", Hdr: "bearer"}
}

// O is an abstract answer, the record NullOut of OAuth2.tla.
type O struct {
	Kind    string   `json:"kind"`
	Status  int      `json:"status"`
	Err     string   `json:"err"`
	Via     string   `json:"via"`
	Target  string   `json:"target"`
	AT      string   `json:"at"`
	RT      string   `json:"rt"`
	Code    string   `json:"code"`
	Scope   []string `json:"scope"`
	ExpIn   int      `json:"expin"`
	State   string   `json:"state"`
	TType   string   `json:"ttype"`
	Active  bool     `json:"active"`
	IClient string   `json:"iclient"`
	IUser   string   `json:"iuser"`
	IType   string   `json:"itype"`
	IExp    int      `json:"iexp"`
	Keys    []string `json:"keys"`
	HD      []string `json:"hd"`
	Leak    bool     `json:"leak"`
	Touched bool     `json:"touched"`
	Grew    bool     `json:"grew"`
	Bytes   [][2]int `json:"bytes"`
	Acc     []string `json:"acc"`
	Act     []string `json:"act"`
}

// NullO is NullOut.
func NullO() O { return O{Via: "none"} }

// sparse writes v without the fields that equal those of null, which
// belong to the spec's Null records.
func sparse(v, null interface{}) map[string]interface{} {
	m := map[string]interface{}{}
	rv, rn := reflect.ValueOf(v), reflect.ValueOf(null)
	for i := 0; i < rv.NumField(); i++ {
		f := rv.Type().Field(i)
		name := strings.Split(f.Tag.Get("json"), ",")[0]
		a, b := rv.Field(i).Interface(), rn.Field(i).Interface()
		if rv.Field(i).Kind() == reflect.Slice && rv.Field(i).Len() == 0 {
			continue
		}
		if rv.Field(i).Kind() == reflect.Ptr && rv.Field(i).IsNil() {
			continue
		}
		if reflect.DeepEqual(a, b) {
			continue
		}
		m[name] = a
	}
	return m
}

// Cfg is the configuration record of the specification.
type Cfg struct {
	Allowed []string             `json:"allowed"`
	AL      int                  `json:"al"`
	RL      int                  `json:"rl"`
	CL      int                  `json:"cl"`
	TPS     int                  `json:"tps"`
	KLen    int                  `json:"klen"`
	Clients map[string]CfgClient `json:"clients"`
	Users   map[string]CfgUser   `json:"users"`
}

// CfgClient is a registered client.
type CfgClient struct {
	Secret   string `json:"secret"`
	Redirect string `json:"redirect"`
	Conf     bool   `json:"conf"`
}

// CfgUser is a registered resource owner.
type CfgUser struct {
	Pass string `json:"pass"`
}

// Alt tells how to write an abstract request; it has no abstract meaning.
type Alt struct {
	Seed  int64  `json:"seed"`            // all free choices of the concretizer
	Mode  string `json:"mode,omitempty"`  // how a !bad or !unk token is made
	Base  string `json:"base,omitempty"`  // the credential it is made from
	Text  Raw    `json:"text,omitempty"`  // mode raw: the text itself
	Redir string `json:"redir,omitempty"` // the text behind a !bad redirect URI
	Body  string `json:"body,omitempty"`  // form, multipart, noct, json: where the fields get lost
	Fault string `json:"fault,omitempty"` // rng, body, write, abort
	At    int    `json:"at,omitempty"`    // where the fault hits
	Plain bool   `json:"plain,omitempty"` // the most ordinary way to write it
}

// Event is one step of a trace.
type Event struct {
	ID  int `json:"id"`
	Q   Q   `json:"q"`
	Alt Alt `json:"alt"`
	O   O   `json:"o"`
	R   Q   `json:"r"` // the request as far as it got through
	// Model is the label the model gave to issued credentials (path replays)
	MAT, MRT, MCode string `json:",omitempty"`
	Raw             string `json:"raw,omitempty"`
	Conf            *Cfg   `json:"conf,omitempty"` // op conf: what is registered from now on
	Par             bool   `json:"par,omitempty"`  // one of the overlapping requests
	Pre             []int  `json:"pre,omitempty"`  // those that were over before it began
}

// Trace is a recorded history with everything needed to run it again.
type Trace struct {
	// Joint names items that, joined by a space, are one more item of the
	// allowed scope, which no request can name.
	Joint   []string `json:"joint,omitempty"`
	ID      int      `json:"id"`
	Seed    int64    `json:"seed"`
	Profile string   `json:"profile"`
	Cfg     Cfg      `json:"cfg"`
	Strings Texts    `json:"strings"`
	Secret  []byte   `json:"secret"`
	Chunk   int      `json:"chunk"`
	Ev      []Event  `json:"ev"`
	Par     bool     `json:"par,omitempty"`
	SSeed   int64    `json:"sseed,omitempty"` // the schedule
	Stick   float64  `json:"stick,omitempty"`
	Script  [][2]int `json:"script,omitempty"` // who runs for how many gates
	Slept   bool     `json:"slept,omitempty"`  // the clock moved during the batch

	now *Cfg // what is registered at the moment
}

// cur is the configuration at the moment.
func (t *Trace) cur() *Cfg {
	if t.now == nil {
		return &t.Cfg
	}
	return t.now
}

// quiet: nothing is sent to the server.
func (e *Event) quiet() bool { return e.Q.Op == "tick" || e.Q.Op == "seed" || e.Q.Op == "conf" }

// TLC renders the trace for the judge.
func (t *Trace) TLC() []byte {
	type ev struct {
		Q map[string]interface{} `json:"q"`
		O map[string]interface{} `json:"o"`
		C int                    `json:"c,omitempty"`
	}
	type pev struct {
		ev
		Pre []int `json:"pre"`
	}
	type batch struct {
		Par []pev `json:"par"`
	}
	var evs []interface{}
	var cfgs []map[string]interface{}
	for i := 0; i < len(t.Ev); i++ {
		e := t.Ev[i]
		if !e.Par {
			if e.Conf != nil {
				cfgs = append(cfgs, tlcCfg(e.Conf))
			}
			evs = append(evs, ev{sparse(e.R, NullQ("")), sparse(e.O, NullO()), len(cfgs)})
			continue
		}
		pos := map[int]int{}
		j := i
		for ; j < len(t.Ev) && t.Ev[j].Par; j++ {
			pos[t.Ev[j].ID] = j - i + 1
		}
		var b batch
		for ; i < j; i++ {
			e := t.Ev[i]
			x := pev{ev: ev{sparse(e.R, NullQ("")), sparse(e.O, NullO()), 0}, Pre: []int{}}
			for _, id := range e.Pre {
				x.Pre = append(x.Pre, pos[id])
			}
			b.Par = append(b.Par, x)
		}
		i--
		evs = append(evs, b)
	}
	m := map[string]interface{}{"id": t.ID, "cfg": tlcCfg(&t.Cfg), "ev": evs}
	if cfgs != nil {
		m["cfgs"] = cfgs
	}
	out, err := json.Marshal(m)
	if err != nil {
		panic(fmt.Sprint("marshal: ", err))
	}
	return out
}

func tlcCfg(c *Cfg) map[string]interface{} {
	cfg := map[string]interface{}{}
	b, _ := json.Marshal(c)
	_ = json.Unmarshal(b, &cfg)
	if c.Allowed == nil {
		cfg["allowed"] = []string{}
	}
	return cfg
}

// Raw is a text of any bytes.
type Raw string

const rawText = "\x00base64:"

func (t Raw) MarshalJSON() ([]byte, error) {
	v := string(t)
	if !utf8.ValidString(v) || strings.HasPrefix(v, rawText) {
		v = rawText + base64.StdEncoding.EncodeToString([]byte(v))
	}
	return json.Marshal(v)
}

func (t *Raw) UnmarshalJSON(b []byte) error {
	var v string
	if err := json.Unmarshal(b, &v); err != nil {
		return err
	}
	if strings.HasPrefix(v, rawText) {
		d, err := base64.StdEncoding.DecodeString(v[len(rawText):])
		if err != nil {
			return err
		}
		v = string(d)
	}
	*t = Raw(v)
	return nil
}

// Texts maps labels to texts of any bytes.
type Texts map[string]string

func (t Texts) MarshalJSON() ([]byte, error) {
	m := map[string]Raw{}
	for k, v := range t {
		m[k] = Raw(v)
	}
	return json.Marshal(m)
}

func (t *Texts) UnmarshalJSON(b []byte) error {
	var m map[string]Raw
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	*t = Texts{}
	for k, v := range m {
		(*t)[k] = string(v)
	}
	return nil
}
