package tests

// Helpers of a demonstration: actors whose handlers are plain functions.

import (
	"context"
	"sync"
	"testing"
	"time"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/node"
	"github.com/pojol/braid/router/msg"
)

type hFac struct {
	mu sync.Mutex
	cs map[string]*core.ActorConstructor
}

func (f *hFac) Get(ty string) *core.ActorConstructor {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.cs[ty]
}
func (f *hFac) GetActors() []*core.ActorConstructor {
	f.mu.Lock()
	defer f.mu.Unlock()
	var l []*core.ActorConstructor
	for _, c := range f.cs {
		l = append(l, c)
	}
	return l
}
func (f *hFac) Builder(ty string, sys core.ISystem) core.IActorBuilder {
	c := f.Get(ty)
	if c == nil {
		return nil
	}
	return &actor.ActorLoaderBuilder{ISystem: sys, ActorConstructor: *c, IActorLoader: f}
}
func (f *hFac) Pick(ctx context.Context, b core.IActorBuilder) error { return nil }
func (f *hFac) AssignToNode(n core.INode)                            {}

type hAct struct {
	*actor.Runtime
	init func(*hAct)
}

func (a *hAct) Init(ctx context.Context) {
	a.Runtime.Init(ctx)
	if a.init != nil {
		a.init(a)
	}
}

func (a *hAct) on(ev string, h func(core.ActorContext, *msg.Wrapper) error) {
	a.OnEvent(ev, func(ctx core.ActorContext) core.IChain {
		return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error { return h(ctx, mw) }}
	})
}

type hNode struct {
	core.INode
	fac *hFac
}

func hBuild(id string, opts ...core.NodeOption) *hNode {
	f := &hFac{cs: map[string]*core.ActorConstructor{}}
	o := append([]core.NodeOption{core.NodeWithID(id), core.NodeWithLoader(f), core.NodeWithFactory(f)}, opts...)
	return &hNode{INode: node.BuildProcessWithOption(o...), fac: f}
}

func (n *hNode) typ(c core.ActorConstructor, init func(*hAct)) {
	if c.Options == nil {
		c.Options = map[string]string{}
	}
	c.Constructor = func(b core.IActorBuilder) core.IActor {
		return &hAct{Runtime: &actor.Runtime{Id: b.GetID(), Ty: b.GetType(), Sys: b.GetSystem()}, init: init}
	}
	n.fac.mu.Lock()
	n.fac.cs[c.Name] = &c
	n.fac.mu.Unlock()
}

// act registers an actor with its own behaviour (type = id)
func (n *hNode) act(t *testing.T, id string, init func(*hAct)) core.IActor {
	n.typ(core.ActorConstructor{Name: "ty." + id, Weight: 10}, init)
	a, err := n.System().Loader("ty." + id).WithID(id).Register(context.Background())
	if err != nil {
		t.Fatal(err)
	}
	return a
}

func hMsg(body string) *msg.Wrapper {
	return msg.NewBuilder(context.Background()).WithReqBody([]byte(body)).Build()
}

// within runs f and reports whether it ended in time
func within(d time.Duration, f func()) bool {
	c := make(chan struct{})
	go func() { f(); close(c) }()
	select {
	case <-c:
		return true
	case <-time.After(d):
		return false
	}
}
