package lib

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"strings"

	"a.verif/h/rnd"
	"github.com/256dpi/oauth2/v2"
)

var b64 = base64.RawURLEncoding

func sign(secret, key []byte) []byte {
	h := hmac.New(sha256.New, secret)
	h.Write(key)
	return h.Sum(nil)
}

func (x *run) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(x.r.Intn(256))
	}
	return b
}

func (x *run) secret(kind string) []byte {
	if x.together && x.r.Intn(2) == 0 {
		// everybody has the same
		return []byte("0123456789abcdef-" + kind)
	}
	switch kind {
	case "short":
		return x.bytes(16)
	case "long":
		return x.bytes(64)
	}
	return x.bytes(65 + x.r.Intn(200))
}

// segment decodes a segment; canonical says whether it is the only spelling.
func segment(s string) (b []byte, ok, canonical bool) {
	clean := strings.Map(func(c rune) rune {
		if c == '\n' || c == '\r' {
			return -1
		}
		return c
	}, s)
	for i := 0; i < len(clean); i++ {
		c := clean[i]
		if !(c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '-' || c == '_') {
			return nil, false, false
		}
	}
	if len(clean)%4 == 1 {
		return nil, false, false
	}
	b, err := b64.DecodeString(clean)
	if err != nil {
		return nil, false, false
	}
	return b, true, b64.EncodeToString(b) == s
}

func flip(s string, i int) string {
	b := []byte(s)
	const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
	k := strings.IndexByte(al, b[i])
	b[i] = al[(k+1+i%62)%64]
	return string(b)
}

func (x *run) tokenparse() (M, M) {
	secret := x.secret(x.c.str("secret"))
	key := x.bytes(x.c.num("klen"))
	sig := sign(secret, key)
	k, s := b64.EncodeToString(key), b64.EncodeToString(sig)
	str := k + "." + s
	other := x.bytes(len(secret))
	n := len(str)
	switch x.c.str("mode") {
	case "ok":
	case "flipkey":
		str = flip(k, x.r.Intn(len(k))) + "." + s
	case "flipsig":
		str = k + "." + flip(s, x.r.Intn(len(s)))
	case "allflips":
		f := sig[:]
		f = append([]byte(nil), f...)
		f[x.r.Intn(len(f))] ^= 1 << uint(x.r.Intn(8))
		str = k + "." + b64.EncodeToString(f)
	case "trunc":
		str = str[:n-1-x.r.Intn(n-1)]
	case "append":
		str += x.pick("A", "AA", "x", "=", "0000", ".", " ")
	case "swap":
		str = s + "." + k
	case "resign":
		str = k + "." + b64.EncodeToString(sign(other, key))
	case "garbage":
		str = x.text()
	case "three":
		str = x.pick(str+"."+s, k+"."+k+"."+s, str+".", "."+str, k+".."+s)
	case "keyonly":
		str = k
	case "sigonly":
		str = s
	case "dotend":
		str = k + "."
	case "dotstart":
		str = "." + s
	case "std":
		key = append([]byte{0xfb, 0xff, 0xfe}, key...)
		sig = sign(secret, key)
		str = base64.RawStdEncoding.EncodeToString(key) + "." + base64.RawStdEncoding.EncodeToString(sig)
	case "pad":
		str = base64.URLEncoding.EncodeToString(key) + "." + base64.URLEncoding.EncodeToString(sig)
	case "space":
		str = x.pick(" "+str, str+" ", k+" ."+s, k+". "+s, "\t"+str)
	case "upper":
		str = strings.ToUpper(str)
	case "lower":
		str = strings.ToLower(str)
	case "label":
		str = "Bearer " + str
	case "sigkey":
		str = s + "." + s
	case "double":
		str = str + str
	case "emptykey":
		str = "." + b64.EncodeToString(sign(secret, nil))
	case "emptysig":
		str = k + "." + b64.EncodeToString(nil)
	case "zerosig":
		str = k + "." + b64.EncodeToString(make([]byte, 32))
	case "hexsig":
		str = hex.EncodeToString(key) + "." + hex.EncodeToString(sig)
	case "nul":
		str = x.pick(str+"\x00", "\x00"+str, k+"\x00."+s)
	case "long":
		str = k + "." + s + strings.Repeat("A", 100000)
	case "flipkeyresign":
		key[x.r.Intn(len(key))] ^= 0x40
		str = b64.EncodeToString(key) + "." + s
	case "shortsig":
		str = k + "." + b64.EncodeToString(sig[:x.r.Intn(32)])
	case "longsig":
		str = k + "." + b64.EncodeToString(append(append([]byte(nil), sig...), x.bytes(1+x.r.Intn(8))...))
	case "empty":
		str = ""
	case "dot":
		str = "."
	case "emptyboth":
		str = x.pick("..", "...", ". .")
	case "othersecret":
		str = k + "." + b64.EncodeToString(sign(nil, key))
	case "prefixsecret":
		str = k + "." + b64.EncodeToString(sign(secret[:len(secret)-1], key))
	case "sigprefix":
		str = k + "." + b64.EncodeToString(append(append([]byte(nil), sig[:31]...), sig[31]^1))
	case "keytail":
		str = b64.EncodeToString(append(append([]byte(nil), key...), 0)) + "." + s
	case "newline":
		i := x.r.Intn(n)
		str = str[:i] + x.pick("\n", "\r\n") + str[i:]
	}
	x.keep(secret)
	x.Info["token"] = clip(str)
	parts := strings.Split(str, ".")
	i := M{"alias": false, "segments": len(parts), "keyok": false, "sigok": false, "match": false}
	var dk, ds []byte
	if len(parts) == 2 {
		var ok1, ok2, c1, c2 bool
		dk, ok1, c1 = segment(parts[0])
		ds, ok2, c2 = segment(parts[1])
		match := ok1 && ok2 && bytes.Equal(sign(secret, dk), ds)
		i["keyok"], i["sigok"], i["match"] = ok1, ok2, match
		i["alias"] = match && (!c1 || !c2 || len(dk) == 0)
	}
	t, err := oauth2.ParseHS256Token(secret, str)
	r := M{"ok": err == nil, "none": t == nil, "same": false, "valid": false}
	if t != nil {
		x.keep(t)
		r["same"] = bytes.Equal(t.Key, dk) && bytes.Equal(t.Signature, ds) && t.String() == str &&
			t.KeyString()+"."+t.SignatureString() == str
		r["valid"] = t.Valid(secret)
	}
	return i, r
}

func (x *run) tokenmake() (M, M) {
	secret := x.secret(x.c.str("secret"))
	key := x.bytes(x.c.num("klen"))
	t := oauth2.HS256TokenFromKey(secret, append([]byte(nil), key...))
	x.keep(secret, t)
	sig := sign(secret, key)
	other := append([]byte(nil), secret...)
	other[x.r.Intn(len(other))] ^= byte(1 + x.r.Intn(255))
	bad := append([]byte(nil), sig...)
	switch x.r.Intn(4) {
	case 0:
		bad[x.r.Intn(32)] ^= byte(1 + x.r.Intn(255))
	case 1:
		bad = bad[:x.r.Intn(32)]
	case 2:
		bad = append(bad, 0)
	case 3:
		bad = nil
	}
	r := M{
		"sigright": bytes.Equal(t.Signature, sig) && t.SignatureString() == b64.EncodeToString(sig),
		"keyright": bytes.Equal(t.Key, key) && t.KeyString() == b64.EncodeToString(key) &&
			t.String() == b64.EncodeToString(key)+"."+b64.EncodeToString(sig),
		"again": true, "valid": t.Valid(secret), "othervalid": t.Valid(other), "eqself": t.Equal(sig), "eqother": t.Equal(bad),
	}
	if len(key) > 0 {
		p, err := oauth2.ParseHS256Token(secret, t.String())
		r["again"] = err == nil && p != nil && bytes.Equal(p.Key, key) && bytes.Equal(p.Signature, sig)
	}
	return M{"klen": len(key)}, r
}

func (x *run) generate() (M, M) {
	n, limit, chunk := x.c.num("len"), x.c.num("limit"), x.c.num("chunk")
	secret := x.secret("short")
	begin := func() {
		rnd.S.Reset(x.seed)
		rnd.S.Chunk = chunk
		rnd.S.FailAfter(limit, x.c.flag("eof"))
	}
	defer rnd.S.Reset(x.seed + 1)
	begin()
	t, err := oauth2.GenerateHS256Token(secret, n)
	log := rnd.S.Delivered()
	r := M{"ok": err == nil, "none": t == nil, "klen": 0, "fresh": false, "signed": false, "mustpanics": false}
	if t != nil {
		r["klen"] = len(t.Key)
		r["fresh"] = len(t.Key) > 0 && bytes.Contains(log, t.Key)
		r["signed"] = bytes.Equal(t.Signature, sign(secret, t.Key))
	}
	begin()
	func() {
		defer func() {
			if recover() != nil {
				r["mustpanics"] = true
			}
		}()
		oauth2.MustGenerateHS256Token(secret, n)
	}()
	return M{"len": n, "limit": limit}, r
}
