package drv

import (
	"context"
	"encoding/json"
	"fmt"
	"sync"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/node"
	"github.com/pojol/braid/lib/mpsc"
	"github.com/pojol/braid/lib/unbounded"
)

// fifo buffers: the unbounded buffer and the actor's queue
func (e *env) runFifo(raw json.RawMessage) {
	sc := e.pscn(raw)
	rec := e.rec
	kind := "unbounded"
	sc.cfg("kind", &kind)
	stop := make(chan struct{})
	ub := unbounded.NewUnbounded()
	q := mpsc.New()
	do := func(p P) {
		switch p.Op {
		case "put":
			rec.Add("pinv", "x", p.X)
			if kind == "mpsc" {
				q.Push(p.X)
			} else {
				ub.Put(p.X)
			}
			rec.Add("pret", "x", p.X)
		case "get":
			// N receives
			for i := 0; i < p.N; i++ {
				rec.Add("ginv")
				if kind == "mpsc" {
					for got := false; !got; {
						select {
						case <-q.C:
							if v := q.Pop(); v != nil {
								rec.Add("got", "x", v.(string))
								got = true
							}
						case <-stop:
							return
						}
					}
				} else {
					select {
					case v := <-ub.Get():
						s, ok := v.(string)
						if !ok {
							s = fmt.Sprintf("invented %v", v)
						}
						rec.Add("got", "x", s)
						ub.Load()
					case <-stop:
						return
					}
				}
				if p.M > 0 {
					time.Sleep(time.Duration(p.M) * time.Millisecond)
				}
			}
		}
	}
	e.phases(sc, do, nil)
	close(stop)
	time.Sleep(time.Second)
}

var verBase int

// entity versions
func (e *env) runVersion(raw json.RawMessage) {
	sc := e.pscn(raw)
	rec := e.rec
	// strategies stay registered for the life of the process: each scenario gets a range above all earlier ones
	base := verBase
	verBase += 100000
	do := func(p P) {
		switch p.Op {
		case "reg":
			rec.Add("rinv", "x", p.X, "v", p.N)
			core.RegisterVersionStrategy(core.VerStrategy{Version: base + p.N, Reason: fmt.Sprint(base + p.N)})
			rec.Add("rret", "x", p.X)
		case "next":
			rec.Add("ninv", "x", p.X, "v", p.N)
			r := core.GetNextVersion(base + p.N)
			rec.Add("nret", "x", p.X, "r", r-base)
		case "get":
			rec.Add("ginv", "x", p.X, "v", p.N)
			s, err := core.GetVerStrategy(base + p.N)
			rec.Add("gret", "x", p.X, "ok", err == nil, "r", s.Version-base, "same", s.Reason == fmt.Sprint(base+p.N))
		case "upgrade":
			// the documented use: step through the versions until none is left
			v := base + p.N
			for i := 0; i < 50; i++ {
				x := fmt.Sprintf("%s.%d", p.X, i)
				rec.Add("ninv", "x", x, "v", v-base)
				r := core.GetNextVersion(v)
				rec.Add("nret", "x", x, "r", r-base)
				if r == v {
					break
				}
				v = r
			}
		}
	}
	e.phases(sc, do, nil)
}

// builders
func (e *env) runBuilder(raw json.RawMessage) {
	sc := e.pscn(raw)
	rec := e.rec
	pfx := fmt.Sprintf("s%d.", rec.sc)
	fac := newFactory()
	tmpl := map[string]map[string]string{}
	sc.cfg("tmpl", &tmpl)
	short := func(id string) string {
		if len(id) > len(pfx) && id[:len(pfx)] == pfx {
			return id[len(pfx):]
		}
		return id
	}
	var mu sync.Mutex
	bs := map[string]core.IActorBuilder{}
	acts := []core.IActor{}
	for ty, o := range tmpl {
		m := map[string]string{}
		for k, v := range o {
			m[k] = v
		}
		fac.add(&core.ActorConstructor{Name: ty, Weight: 3, Options: m, Constructor: func(b core.IActorBuilder) core.IActor {
			rec.Add("built", "id", short(b.GetID()), "ty", b.GetType(), "opts", copyMap(b.GetOptions()))
			return newPlain(b, nil)
		}})
		rec.Add("tmpl", "ty", ty, "opts", copyMap(m))
	}
	nd := node.BuildProcessWithOption(core.NodeWithID(pfx+"n1"), core.NodeWithLoader(fac), core.NodeWithFactory(fac))
	sys := nd.System()
	do := func(p P) {
		mu.Lock()
		b := bs[p.A]
		mu.Unlock()
		if b == nil && p.Op != "new" && p.Op != "tmpl" {
			return
		}
		switch p.Op {
		case "new":
			nb := sys.Loader(p.V)
			mu.Lock()
			bs[p.A] = nb
			mu.Unlock()
			rec.Add("bnew", "b", p.A, "ty", p.V)
		case "opt":
			b.WithOpt(p.K, p.V)
			rec.Add("bopt", "b", p.A, "k", p.K, "v", p.V)
		case "id":
			b.WithID(pfx + p.V)
			rec.Add("bid", "b", p.A, "v", p.V)
		case "type":
			b.WithType(p.V)
			rec.Add("bty", "b", p.A, "v", p.V)
		case "get":
			rec.Add("bget", "b", p.A, "k", p.K, "r", b.GetOpt(p.K))
		case "read":
			rec.Add("bread", "b", p.A, "id", short(b.GetID()), "ty", b.GetType(), "opts", copyMap(b.GetOptions()))
		case "reg":
			a, err := b.Register(context.Background())
			if err == nil {
				mu.Lock()
				acts = append(acts, a)
				mu.Unlock()
			}
			rec.Add("breg", "b", p.A, "ok", err == nil)
		case "tmpl":
			c := fac.Get(p.V)
			rec.Add("tread", "ty", p.V, "opts", copyMap(c.Options), "id", short(c.ID), "name", c.Name)
		}
	}
	e.phases(sc, do, nil)
	for _, a := range acts {
		go a.Exit()
	}
	time.Sleep(time.Second)
}

// copyMap reads a map that nobody should be writing; a concurrent writer makes the runtime abort the process
func copyMap(m map[string]string) map[string]string {
	r := map[string]string{}
	for k, v := range m {
		r[k] = v
	}
	return r
}
