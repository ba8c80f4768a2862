package drv

import (
	"context"
	"encoding/json"
	"strings"
	"sync"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/router/msg"
)

// futures: Then and Complete from several goroutines
func (e *env) runFuture(raw json.RawMessage) {
	sc := e.pscn(raw)
	rec := e.rec
	var mu sync.Mutex
	futs := map[string]core.IFuture{}
	get := func(n string) core.IFuture {
		mu.Lock()
		defer mu.Unlock()
		return futs[n]
	}
	var roots []string
	sc.cfg("roots", &roots)
	for _, r := range roots {
		futs[r] = actor.NewFuture()
		rec.Add("new", "f", r)
	}
	do := func(p P) {
		f := get(p.A)
		if f == nil {
			return // its Then has not returned yet
		}
		switch p.Op {
		case "then":
			rec.Add("tinv", "c", p.B, "f", p.A)
			nf := f.Then(func(mw *msg.Wrapper) {
				v := "nil"
				if mw != nil {
					v = string(mw.Req.Body)
					if (mw.Err != nil) != strings.HasSuffix(v, "!") {
						v += "?"
					}
				}
				rec.Add("cb", "c", p.B, "v", v)
				if p.N > 0 {
					time.Sleep(time.Duration(p.N) * time.Millisecond)
				}
				rec.Add("cbe", "c", p.B)
			})
			mu.Lock()
			futs[p.B] = nf
			mu.Unlock()
			rec.Add("tret", "c", p.B)
		case "complete":
			mw := msg.NewBuilder(context.Background()).WithReqBody([]byte(p.V)).Build()
			if strings.HasSuffix(p.V, "!") {
				mw.Err = errHandler // a result which carries an error
			}
			rec.Add("cinv", "x", p.X, "f", p.A, "v", p.V)
			f.Complete(mw)
			rec.Add("cret", "x", p.X)
		case "isc":
			rec.Add("iinv", "x", p.X, "f", p.A)
			r := f.IsCompleted()
			rec.Add("iret", "x", p.X, "r", r)
		}
	}
	e.phases(sc, do, nil)
	time.Sleep(time.Second)
}
