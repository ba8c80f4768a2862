package drv

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"strings"
	"sync"

	"github.com/pojol/braid/lib/token"
)

var b64 = base64.RawURLEncoding

func seg(v any) string {
	b, _ := json.Marshal(v)
	return b64.EncodeToString(b)
}

func flip(s string, k int) string {
	b, err := b64.DecodeString(strings.TrimRight(s, "="))
	if err != nil || len(b) == 0 {
		return s + "AA"
	}
	b[k%len(b)] ^= 1 << (k % 7)
	return b64.EncodeToString(b)
}

// the payload segment of a token is taken apart to put another id in, whatever the claims look like
func withPay(pay, old, id string) string {
	b, err := b64.DecodeString(strings.TrimRight(pay, "="))
	if err != nil {
		return seg(map[string]any{"EntityID": id})
	}
	var m map[string]any
	if json.Unmarshal(b, &m) != nil {
		return seg(map[string]any{"EntityID": id})
	}
	for k, v := range m {
		if v == old {
			m[k] = id
		}
	}
	return seg(m)
}

// forge is how of the two tokens b and c (of the id old), or something of its own
func forge(how string, b, c, old, id string, k int) string {
	p := strings.Split(b, ".")
	q := strings.Split(c, ".")
	for len(p) < 3 {
		p = append(p, "")
	}
	for len(q) < 3 {
		q = append(q, "")
	}
	switch how {
	case "copy":
		return b
	case "pay":
		return p[0] + "." + withPay(p[1], old, id) + "." + p[2]
	case "bits":
		return p[0] + "." + flip(p[1], k) + "." + p[2]
	case "sig":
		return p[0] + "." + p[1] + "." + flip(p[2], k)
	case "swap":
		return p[0] + "." + p[1] + "." + q[2]
	case "alg":
		alg := []string{"none", "None", "HS512", "HS384", "RS256", "", "hs256"}[k%7]
		return seg(map[string]any{"alg": alg, "typ": "JWT"}) + "." + p[1] + "." + p[2]
	case "cut":
		switch k % 8 {
		case 0:
			return b[:len(b)-1]
		case 1:
			return b[:len(b)-(2+k%20)]
		case 2:
			return p[0] + "." + p[1] + "."
		case 3:
			return p[0] + "." + p[1]
		case 4:
			return b + ".x"
		case 5:
			return b + "AA"
		case 6:
			return p[1] + "." + p[2]
		default:
			return p[0] + "." + p[1] + "." + p[2] + "." + p[2]
		}
	case "none":
		alg := []string{"none", "None", "NONE", "nonE"}[k%4]
		return seg(map[string]any{"alg": alg, "typ": "JWT"}) + "." + withPay(p[1], old, id) + "." + []string{"", p[2]}[k/4%2]
	case "key":
		key := []string{"", "mine", old, id, p[1], "\x00"}[k%6]
		h := hmac.New(sha256.New, []byte(key))
		in := p[0] + "." + withPay(p[1], old, id)
		h.Write([]byte(in))
		return in + "." + b64.EncodeToString(h.Sum(nil))
	}
	return []string{"", ".", "..", "...", "x", id, "a.b.c", p[0], "..." + b, " "}[k%10]
}

// login tokens
func (e *env) runToken(raw json.RawMessage) {
	sc := e.pscn(raw)
	rec := e.rec
	ids := map[string]string{} // short -> the id itself
	sc.cfg("ids", &ids)
	short := map[string]string{"": ""}
	for k, v := range ids {
		short[v] = k
	}
	var mu sync.Mutex
	toks, of := map[string]string{}, map[string]string{}
	get := func(x string) (string, string, bool) {
		mu.Lock()
		defer mu.Unlock()
		t, ok := toks[x]
		return t, of[x], ok
	}
	put := func(x, t, id string) {
		mu.Lock()
		defer mu.Unlock()
		toks[x], of[x] = t, id
	}
	do := func(p P) {
		switch p.Op {
		case "create":
			t, err := token.Create(ids[p.V])
			rec.Add("create", "x", p.X, "id", p.V, "ok", err == nil)
			if err == nil {
				put(p.X, t, ids[p.V])
			}
		case "forge":
			b, old, ok := get(p.A)
			c, _, ok2 := get(p.B)
			if !ok || !ok2 {
				return
			}
			t := forge(p.K, b, c, old, ids[p.V], p.N)
			rec.Add("forge", "x", p.X, "how", p.K, "b", p.A, "c", p.B, "id", p.V)
			put(p.X, t, old)
		case "parse":
			t, _, ok := get(p.A)
			if !ok {
				return
			}
			id, err := token.Parse(t)
			sh, known := short[id]
			if !known {
				sh = "invented " + id
			}
			rec.Add("parse", "x", p.A, "ok", err == nil, "id", sh)
		}
	}
	e.phases(sc, do, nil)
}
