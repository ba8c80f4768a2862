package drv

import (
	"context"
	"sync"

	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"

	"github.com/alicebob/miniredis/v2"
)

// env is what the scenarios of one worker process share.
type env struct {
	mr   *miniredis.Miniredis
	rec  *Rec
	hits map[uint32]int
}

// factory is both actor factory and loader, written after the documented pattern.
type factory struct {
	mu  sync.Mutex
	cs  map[string]*core.ActorConstructor
	ord []string
}

func newFactory() *factory { return &factory{cs: map[string]*core.ActorConstructor{}} }

func (f *factory) add(c *core.ActorConstructor) {
	f.mu.Lock()
	defer f.mu.Unlock()
	if _, ok := f.cs[c.Name]; !ok {
		f.ord = append(f.ord, c.Name)
		if c.Options == nil {
			c.Options = map[string]string{}
		}
		f.cs[c.Name] = c
	}
}

func (f *factory) Get(ty string) *core.ActorConstructor {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.cs[ty]
}

func (f *factory) GetActors() []*core.ActorConstructor {
	f.mu.Lock()
	defer f.mu.Unlock()
	var l []*core.ActorConstructor
	for _, n := range f.ord {
		l = append(l, f.cs[n])
	}
	return l
}

func (f *factory) Builder(ty string, sys core.ISystem) core.IActorBuilder {
	c := f.Get(ty)
	if c == nil {
		return nil
	}
	return &actor.ActorLoaderBuilder{ISystem: sys, ActorConstructor: *c, IActorLoader: f}
}

func (f *factory) Pick(ctx context.Context, b core.IActorBuilder) error { return nil }
func (f *factory) AssignToNode(n core.INode)                            {}
