package drv

var intentOrder = []string{"authcode", "implicit", "authget", "password", "cc", "exchange", "replay", "refresh", "refreshold",
	"introspect", "revoke", "resource", "other", "tick", "smalltick", "seed", "conf"}

type weights = map[string]int

var allFields = weights{"client": 2, "secret": 2, "cauth": 1, "noauth": 1, "user": 1, "pass": 1, "redir": 2, "scope": 2, "state": 1,
	"rtype": 1, "grant": 1, "tok": 2, "kind": 1, "foreign": 2, "alias": 1, "hint": 1, "hdr": 1, "need": 1, "method": 1, "qf": 1, "deco": 1, "form": 1, "ctype": 1}

func mix() *profile {
	return &profile{name: "mix", length: 30, pMut: 0.35, pSnap: 0.5, pFinal: 0.6, mut: allFields,
		w: weights{"authcode": 6, "implicit": 3, "authget": 1, "password": 4, "cc": 3, "exchange": 7, "replay": 3, "refresh": 7,
			"refreshold": 2, "introspect": 4, "revoke": 3, "resource": 4, "other": 1, "tick": 3, "smalltick": 1, "seed": 1}}
}

// twins is how often a request is preceded by flawed copies of itself.
func (p *profile) twins() float64 {
	switch p.name {
	case "C03", "C04", "C25":
		return 0.25
	case "C09", "C21", "C18s", "C13s", "C10s", "C01f", "C04f", "C15f", "C16":
		return 0.03
	}
	return 0.1
}

// special gives the profiles that look for violations of one property.
func special(pid string) []*profile {
	p := &profile{name: pid, length: 30, pMut: 0.35, pSnap: 0.4, pFinal: 0.6, mut: allFields}
	one := []*profile{p}
	switch pid {
	case "C01":
		p.w = weights{"authcode": 5, "exchange": 8, "replay": 8, "tick": 2, "refresh": 2, "revoke": 2, "resource": 1, "smalltick": 1}
		p.mut = weights{"foreign": 4, "redir": 2, "secret": 1, "client": 1, "user": 1, "scope": 1, "deco": 1, "qf": 1, "alias": 2}
		p.noShort, p.pSnap, p.pFinal = true, 0.1, 1
		q := *p
		q.name, q.fault, q.faults, q.pMut = "C01f", 0.25, []string{"rng", "body", "write", "abort"}, 0.1
		one = append(one, &q)
	case "C02":
		p.w = weights{"authcode": 5, "exchange": 8, "replay": 5, "refresh": 9, "refreshold": 1, "password": 1, "cc": 1, "implicit": 1, "revoke": 2, "tick": 1, "introspect": 1}
		p.mut = weights{"foreign": 4, "redir": 2, "scope": 1, "tok": 1, "alias": 1}
		p.noShort, p.pMut, p.pSnap, p.pFinal = true, 0.2, 0.6, 1
		q := *p
		q.simple = true
		one = append(one, &q)
	case "C03":
		p.w = weights{"authcode": 7, "exchange": 12, "replay": 1, "tick": 3, "smalltick": 1, "introspect": 3, "resource": 2, "refresh": 1, "implicit": 1}
		p.mut = weights{"foreign": 4, "redir": 5, "scope": 2, "user": 1, "client": 1, "secret": 1, "kind": 1, "deco": 1, "form": 1}
		p.pMut, p.pFinal = 0.5, 1
	case "C04":
		p.w = weights{"password": 3, "cc": 2, "authcode": 2, "exchange": 3, "refresh": 12, "refreshold": 6, "tick": 2, "revoke": 2, "introspect": 2, "smalltick": 1}
		p.mut = weights{"foreign": 3, "scope": 3, "secret": 1, "kind": 1, "form": 1, "tok": 1, "alias": 2}
		p.pSnap, p.pFinal = 0.5, 1
		q := *p
		q.name, q.fault, q.faults, q.pMut = "C04f", 0.25, []string{"rng", "body", "write", "abort"}, 0.1
		one = append(one, &q)
	case "C05":
		p.w = weights{"password": 4, "cc": 2, "authcode": 2, "exchange": 3, "refresh": 14, "introspect": 5, "resource": 4, "seed": 2}
		p.mut = weights{"scope": 6, "foreign": 3, "need": 2, "user": 1, "kind": 1, "qf": 1, "deco": 1}
		p.noShort, p.pMut, p.pFinal = true, 0.45, 1
	case "C06":
		p.w = weights{"authcode": 3, "exchange": 4, "password": 4, "cc": 3, "refresh": 4, "introspect": 6, "revoke": 5, "replay": 2}
		p.mut = weights{"client": 4, "secret": 6, "cauth": 4, "noauth": 3, "qf": 1, "deco": 1, "foreign": 2}
		p.noShort, p.pMut = true, 0.65
	case "C07":
		p.w = weights{"authcode": 6, "implicit": 6, "authget": 2, "password": 6, "cc": 4, "exchange": 3, "refresh": 2, "introspect": 4}
		p.mut = weights{"user": 6, "pass": 6, "method": 1, "qf": 2, "deco": 2, "client": 1, "scope": 1}
		p.noShort, p.pMut = true, 0.6
	case "C08":
		p.w = weights{"authcode": 5, "implicit": 5, "password": 5, "cc": 5, "exchange": 5, "refresh": 3, "introspect": 5, "resource": 7}
		p.mut = weights{"scope": 8, "need": 5, "user": 1, "deco": 1, "qf": 1}
		p.noShort, p.pMut = true, 0.5
	case "C09":
		p.w = weights{"authcode": 8, "implicit": 8, "authget": 3}
		p.mut = weights{"redir": 10, "client": 4, "rtype": 3, "scope": 2, "user": 1, "pass": 1, "method": 1, "qf": 1, "deco": 2, "form": 1, "state": 1}
		p.pMut, p.pSnap, p.pFinal, p.length = 0.7, 0, 0, 40
	case "C10":
		p.w = weights{"authcode": 3, "implicit": 3, "password": 4, "cc": 3, "exchange": 4, "replay": 2, "refresh": 3, "revoke": 3, "resource": 18, "tick": 3, "seed": 1}
		p.mut = weights{"need": 5, "hdr": 3, "tok": 4, "kind": 2, "forge": 3}
		p.pMut = 0.4
		q := *p
		q.name, q.pMut, q.pSnap, q.sweep = "C10s", 0.1, 0.05, []string{"tok-resource", "hdr", "need", "tok-resource"}
		one = append(one, p, &q)
	case "C11":
		p.w = weights{"authcode": 3, "implicit": 2, "password": 4, "cc": 3, "exchange": 4, "refresh": 4, "replay": 1, "revoke": 12, "tick": 1, "introspect": 1, "resource": 1}
		p.mut = weights{"hint": 4, "foreign": 4, "kind": 3, "forge": 2, "alias": 2, "secret": 1, "client": 1, "form": 1, "qf": 1}
		p.noShort, p.pMut, p.pSnap, p.pFinal = true, 0.4, 0.8, 0.8
	case "C12":
		p.w = weights{"authcode": 3, "implicit": 3, "password": 4, "cc": 3, "exchange": 4, "refresh": 4, "replay": 2, "revoke": 3, "introspect": 16, "tick": 4, "smalltick": 1, "seed": 1}
		p.mut = weights{"hint": 4, "foreign": 4, "kind": 3, "forge": 3, "client": 1, "qf": 1}
	case "C13":
		p.w = weights{"authcode": 4, "password": 3, "cc": 2, "exchange": 6, "refresh": 6, "introspect": 6, "revoke": 6, "resource": 8, "tick": 1, "replay": 1, "seed": 1}
		p.mut = weights{"forge": 10, "kind": 5, "tok": 2, "alias": 2}
		p.noShort, p.pMut, p.pSnap = true, 0.6, 0.5
		q := *p
		q.name, q.pMut, q.pSnap, q.sweep = "C13s", 0.1, 0.1, sweepFields[:5]
		one = append(one, p, &q)
	case "C14":
		p.w = weights{"authcode": 4, "implicit": 2, "password": 4, "cc": 2, "exchange": 6, "refresh": 6, "introspect": 4, "resource": 4, "tick": 12, "smalltick": 2, "replay": 1, "revoke": 1}
		p.mut = weights{"foreign": 1, "scope": 1, "kind": 1}
		p.pMut, p.pSnap, p.pFinal = 0.08, 0.7, 1
	case "C15":
		p.w = weights{"authcode": 6, "implicit": 4, "password": 5, "cc": 4, "exchange": 8, "refresh": 8, "replay": 1, "seed": 1, "revoke": 1}
		p.mut = weights{"scope": 1, "foreign": 1}
		p.noShort, p.pMut, p.pSnap, p.chunks = true, 0.05, 0.3, true
		q := *p
		q.name, q.fault, q.faults = "C15f", 0.35, []string{"rng"}
		one = append(one, &q)
	case "C16":
		p.w = weights{"authcode": 5, "implicit": 3, "password": 3, "cc": 2, "exchange": 8, "refresh": 8, "replay": 3, "revoke": 4, "introspect": 1, "resource": 1, "tick": 1}
		p.mut = weights{"scope": 1, "foreign": 2, "redir": 1}
		p.noShort, p.pMut, p.pSnap, p.pFinal = true, 0.05, 0.6, 1
		p.fault, p.faults, p.chunks = 0.4, []string{"rng", "rng", "body", "write", "abort"}, true
		q := *p
		q.chunks, q.length, q.pSnap = false, 20, 0.9
		one = append(one, &q)
	case "C18":
		p.w = mix().w
		p.pMut, p.pSnap, p.pFinal = 0.65, 0.1, 0.4
		q := *p
		q.name, q.pMut, q.pSnap, q.sweep = "C18s", 0.1, 0.05, sweepFields
		one = append(one, &q)
	case "C19":
		p.w = mix().w
		p.pMut, p.pSnap = 0.4, 0.1
	case "C20":
		p.w = weights{"authcode": 5, "implicit": 4, "authget": 4, "password": 4, "cc": 3, "exchange": 5, "refresh": 5, "introspect": 4, "revoke": 4, "other": 6, "replay": 1}
		p.mut = weights{"method": 6, "qf": 6, "deco": 6, "form": 2, "ctype": 3}
		p.noShort, p.pMut = true, 0.7
	case "C21":
		p.w = weights{"authcode": 8, "implicit": 8, "exchange": 1, "authget": 1}
		p.mut = weights{"state": 6, "scope": 4, "user": 2, "pass": 2, "qf": 2, "deco": 2, "client": 1, "redir": 1}
		p.pMut, p.pSnap, p.pFinal, p.length = 0.6, 0, 0, 40
	case "C25":
		p.w = mix().w
		p.noShort, p.pMut, p.pSnap, p.pFinal = true, 0.6, 0.9, 1
		q := *p
		q.noShort, q.pSnap = false, 0
		one = append(one, &q)
	default:
		panic("unknown profile " + pid)
	}
	return one
}

func profilesFor(name string) []*profile {
	if name == "mix" {
		return []*profile{mix()}
	}
	s := special(name)
	l := append([]*profile{}, s...)
	l = append(l, s...)
	return append(l, mix())
}
