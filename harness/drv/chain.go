package drv

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/node"
	"github.com/pojol/braid/router/msg"
)

type plainAct struct {
	*actor.Runtime
	init func(a *plainAct)
}

func (a *plainAct) Init(ctx context.Context) {
	a.Runtime.Init(ctx)
	if a.init != nil {
		a.init(a)
	}
}

func newPlain(b core.IActorBuilder, init func(a *plainAct)) core.IActor {
	return &plainAct{Runtime: &actor.Runtime{Id: b.GetID(), Ty: b.GetType(), Sys: b.GetSystem()}, init: init}
}

// chains: registration and execution of event chains on one actor
func (e *env) runChain(raw json.RawMessage) {
	sc := e.pscn(raw)
	rec := e.rec
	type def struct {
		Before []string `json:"before"`
		H      string   `json:"h"`
		After  []string `json:"after"`
	}
	chains := map[string]def{}
	sc.cfg("chains", &chains)
	fac := newFactory()
	pfx := fmt.Sprintf("s%d.", rec.sc)
	fac.add(&core.ActorConstructor{Name: "T", Weight: 1, Constructor: func(b core.IActorBuilder) core.IActor { return newPlain(b, nil) }})
	nd := node.BuildProcessWithOption(core.NodeWithID(pfx+"n1"), core.NodeWithLoader(fac), core.NodeWithFactory(fac))
	sys := nd.System()
	ac, err := sys.Loader("T").WithID(pfx + "a").Register(context.Background())
	if err != nil {
		harnessError("register: %v", err)
	}
	act := ac.(*plainAct)
	for k, d := range chains {
		outs := append(append(append([]string{}, d.Before...), d.H), d.After...)
		rec.Add("chain", "k", k, "outs", outs)
	}
	step := func(k string, pos int, out string) actor.EventHandler {
		return func(mw *msg.Wrapper) error {
			rec.Add("step", "m", string(mw.Req.Body), "k", k, "pos", pos)
			switch out {
			case "err":
				return errHandler
			case "mark": // a business error for the caller, not a failed step
				mw.Err = errHandler
			case "markerr":
				mw.Err = errHandler
				return errHandler
			case "panic":
				panic("step panic")
			case "slow":
				time.Sleep(5 * time.Millisecond)
			}
			return nil
		}
	}
	build := func(k string) core.IChain {
		d := chains[k]
		c := &actor.DefaultChain{}
		n := 0
		for _, o := range d.Before {
			n++
			c.Before = append(c.Before, step(k, n, o))
		}
		n++
		c.Handler = step(k, n, d.H)
		for _, o := range d.After {
			n++
			c.After = append(c.After, step(k, n, o))
		}
		return c
	}
	do := func(p P) {
		switch p.Op {
		case "on":
			rec.Add("oinv", "x", p.X, "k", p.K, "ev", p.V)
			err := act.OnEvent(p.V, func(core.ActorContext) core.IChain { return build(p.K) })
			rec.Add("oret", "x", p.X, "ok", err == nil)
		case "call", "send":
			mw := msg.NewBuilder(context.Background()).WithReqBody([]byte(p.X)).Build()
			rec.Add("inv", "m", p.X, "ev", p.V, "kind", p.Op)
			var err error
			if p.Op == "call" {
				err = sys.Call(pfx+"a", "T", p.V, mw)
			} else {
				err = sys.Send(pfx+"a", "T", p.V, mw)
			}
			ok := func(err error) bool { return err == nil || errors.Is(err, errHandler) }
			good := ok(err)
			if good && p.Op == "call" { // otherwise handlers may still be setting it
				good = ok(mw.Err)
			}
			rec.Add("ret", "m", p.X, "ok", good)
		}
	}
	e.phases(sc, do, nil)
	go act.Exit()
	time.Sleep(12 * time.Second)
}
