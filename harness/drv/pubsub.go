package drv

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	trd "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/node"
	"github.com/pojol/braid/lib/mpsc"
	"github.com/pojol/braid/lib/pubsub"
	"github.com/pojol/braid/router/msg"

	"github.com/redis/go-redis/v9"
)

// The pubsub family: subscribers on several nodes, publications from anywhere, topics that come and go.

// readHook lets a blocking stream read wait in virtual time: the read itself does not block, and when there is
// nothing to read the time it would have blocked passes in the bubble.
type readHook struct{}

func (readHook) DialHook(next redis.DialHook) redis.DialHook { return next }
func (readHook) ProcessPipelineHook(next redis.ProcessPipelineHook) redis.ProcessPipelineHook {
	return func(ctx context.Context, cmds []redis.Cmder) error {
		if failingNow() == "pipeline" {
			for _, cmd := range cmds {
				cmd.SetErr(errTold)
			}
			return errTold
		}
		return next(ctx, cmds)
	}
}

var errTold = errors.New("told to fail")
var failing atomic.Value

func failingNow() string {
	s, _ := failing.Load().(string)
	return s
}

func (readHook) ProcessHook(next redis.ProcessHook) redis.ProcessHook {
	return func(ctx context.Context, cmd redis.Cmder) error {
		if f := failingNow(); f != "" && strings.HasPrefix(strings.ToLower(fmt.Sprint(cmd.Args())), "["+f) {
			cmd.SetErr(errTold)
			time.Sleep(time.Millisecond)
			return errTold
		}
		rd, ok := cmd.(*redis.XStreamSliceCmd)
		if !ok {
			return next(ctx, cmd)
		}
		var args []any
		wait := time.Duration(0)
		for i := 0; i < len(rd.Args()); i++ {
			a := rd.Args()[i]
			if s, ok := a.(string); ok && s == "block" && i+1 < len(rd.Args()) {
				if ms, ok := rd.Args()[i+1].(int64); ok {
					wait = time.Duration(ms) * time.Millisecond
					i++
					continue
				}
			}
			args = append(args, a)
		}
		c := redis.NewXStreamSliceCmd(ctx, args...)
		err := next(ctx, c)
		rd.SetVal(c.Val())
		rd.SetErr(c.Err())
		if len(c.Val()) == 0 {
			if wait <= 0 || wait > time.Second { // block 0 waits for ever
				wait = 10 * time.Millisecond
			}
			time.Sleep(wait)
			// what has arrived meanwhile
			c = redis.NewXStreamSliceCmd(ctx, args...)
			err = next(ctx, c)
			rd.SetVal(c.Val())
			rd.SetErr(c.Err())
		}
		return err
	}
}

var _ net.Conn
var hookOnce sync.Once

type psub struct {
	e     *env
	rec   *Rec
	mu    sync.Mutex
	sem   chan int
	nodes map[string]core.ISystem
	mgrs  map[string]*pubsub.Pubsub
	acts  map[string]*pact
	raws  map[string]*rawSub
	prog  map[string][]P
	init  map[string][]P
	gate  *gates
	seen  map[string]bool
	sent  map[string]*sent
	topic map[string]string // name in the scenario -> real name
	pfx   string
	empty string // the message with an empty body, if any
}

type pact struct {
	*actor.Runtime
	c *psub
	x string
}

type rawSub struct {
	ch   *pubsub.Channel
	q    *mpsc.Queue
	stop chan struct{}
}

var psEvents = []string{"e1", "e2", "e3", "ж e", "init"}

func (a *pact) Init(ctx context.Context) {
	a.Runtime.Init(ctx)
	for _, ev := range psEvents {
		a.OnEvent(ev, a.chain(ev))
	}
	for _, p := range a.c.init[a.x] {
		a.c.sub(a, p)
	}
}

func (a *pact) chain(ev string) func(core.ActorContext) core.IChain {
	return func(actx core.ActorContext) core.IChain {
		return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error {
			a.c.handle(a.x, ev, mw)
			return nil
		}}
	}
}

func (c *psub) handle(x, ev string, mw *msg.Wrapper) {
	m := ""
	if i := bytes.IndexByte(mw.Req.Body, '|'); i >= 0 {
		m = string(mw.Req.Body[:i])
	}
	c.mu.Lock()
	if len(mw.Req.Body) == 0 && c.empty != "" {
		m = c.empty
	}
	s := c.sent[m]
	c.mu.Unlock()
	if s == nil {
		c.rec.Add("hs", "m", "?", "x", x, "same", false, "why", fmt.Sprintf("%q %q", mw.Req.Header.Event, mw.Req.Body))
		return
	}
	h := mw.Req.Header.Event
	same := bytes.Equal(mw.Req.Body, s.body) && h == s.ev && (ev == "" || ev == h)
	c.rec.Add("hs", "m", m, "x", x, "same", same)
	for _, p := range c.prog[m] {
		switch p.Op {
		case "hold":
			<-c.gate.get(m)
		case "sleep":
			time.Sleep(time.Duration(p.N) * time.Millisecond)
		case "panic":
			if x[0] == 'a' {
				c.rec.Add("he", "m", m, "x", x)
				panic("told to")
			}
		}
	}
	c.rec.Add("he", "m", m, "x", x)
}

func (c *psub) real(t string) string {
	c.mu.Lock()
	defer c.mu.Unlock()
	if r, ok := c.topic[t]; ok {
		return r
	}
	return t
}

func (c *psub) sub(a *pact, p P) {
	var opts []pubsub.TopicOption
	if p.N > 0 {
		opts = append(opts, pubsub.WithTTL(time.Duration(p.N)*time.Millisecond))
	}
	c.mu.Lock()
	for c.seen[p.X] { // an actor initialised twice subscribes twice
		p.X += "+"
	}
	c.seen[p.X] = true
	c.mu.Unlock()
	c.rec.Add("sinv", "sb", p.X, "x", a.x, "tp", p.B, "ch", p.K, "ttl", p.N, "mgr", p.A, "raw", false, "beg", false)
	err := a.Sub(c.real(p.B), p.K, a.chain(p.K), opts...)
	c.rec.Add("sret", "sb", p.X, "ok", err == nil, "why", fmt.Sprint(err))
}

func (c *psub) mk(m, kind, ev string) *sent {
	hh := fnv.New64()
	hh.Write([]byte(m + "/" + kind))
	r := rand.New(rand.NewSource(int64(hh.Sum64())))
	s := &sent{ev: ev}
	var b []byte
	switch kind {
	case "empty":
		c.mu.Lock()
		c.empty = m
		c.sent[m] = s
		c.mu.Unlock()
		return s
	case "big":
		b = make([]byte, 70000)
	case "text":
		b = []byte("Grüße, msg init event \"q\" \\ \n")
	default:
		b = make([]byte, r.Intn(30))
	}
	if kind != "text" {
		r.Read(b)
	}
	s.body = append([]byte(m+"|"), b...)
	c.mu.Lock()
	c.sent[m] = s
	c.mu.Unlock()
	return s
}

func (e *env) runPubsub(raw json.RawMessage) {
	useLan()
	hookOnce.Do(func() { trd.GetClient().AddHook(readHook{}) })
	sc := e.pscn(raw)
	c := &psub{e: e, rec: e.rec, sem: make(chan int, 1), nodes: map[string]core.ISystem{}, mgrs: map[string]*pubsub.Pubsub{}, acts: map[string]*pact{},
		raws: map[string]*rawSub{}, prog: map[string][]P{}, init: map[string][]P{}, gate: &gates{}, seen: map[string]bool{}, sent: map[string]*sent{}, topic: map[string]string{},
		pfx: fmt.Sprintf("s%d.", e.rec.sc)}
	sc.cfg("prog", &c.prog)
	sc.cfg("init", &c.init)
	sc.cfg("topics", &c.topic)
	var names []string
	for t, s := range c.topic {
		names = append(names, t)
		c.topic[t] = c.pfx + s
	}
	sort.Strings(names)
	fac := newFactory()
	fac.add(&core.ActorConstructor{Name: "S", Weight: 1, Constructor: func(b core.IActorBuilder) core.IActor {
		a := &pact{Runtime: &actor.Runtime{Id: b.GetID(), Ty: b.GetType(), Sys: b.GetSystem()}, c: c, x: b.GetOpt("x")}
		c.mu.Lock()
		c.acts[a.x] = a
		c.mu.Unlock()
		return a
	}})
	bg := context.Background()
	sys := func(n string) core.ISystem {
		c.mu.Lock()
		defer c.mu.Unlock()
		return c.nodes[n]
	}
	mgr := func(n string) *pubsub.Pubsub {
		g := pubsub.BuildWithOption() // code under test: not with the lock held
		c.mu.Lock()
		defer c.mu.Unlock()
		if c.mgrs[n] == nil {
			c.mgrs[n] = g
		}
		return c.mgrs[n]
	}
	ttl := func(p P) (l []pubsub.TopicOption) {
		if p.N > 0 {
			l = append(l, pubsub.WithTTL(time.Duration(p.N)*time.Millisecond))
		}
		return
	}
	stops := func(x string) {
		c.rec.Add("stret", "x", x)
	}
	do := func(p P) {
		switch p.Op {
		case "start":
			c.sem <- 1
			i := len(c.nodes)
			theLan.at("10.0.0.1")
			nd := node.BuildProcessWithOption(core.NodeWithID(c.pfx+p.A), core.NodeWithIP("10.0.0.1"), core.NodeWithPort(1000+20*e.rec.sc+i), core.NodeWithLoader(fac), core.NodeWithFactory(fac))
			c.mu.Lock()
			c.nodes[p.A] = nd.System()
			c.mu.Unlock()
			<-c.sem
		case "act":
			if _, err := sys(p.A).Loader("S").WithID(c.pfx+p.X).WithOpt("x", p.X).Register(bg); err != nil {
				harnessError("register: %v", err)
			}
		case "sub":
			c.mu.Lock()
			a := c.acts[p.V]
			c.mu.Unlock()
			c.sub(a, p)
		case "raw": // a subscription without an actor
			r := &rawSub{q: mpsc.New(), stop: make(chan struct{})}
			c.rec.Add("sinv", "sb", p.X, "x", p.X, "tp", p.B, "ch", p.K, "ttl", p.N, "mgr", p.A, "raw", true, "beg", p.F)
			var ch *pubsub.Channel
			var err error
			if p.F {
				ch, err = mgr(p.A).GetOrCreateTopic(c.real(p.B), ttl(p)...).Sub(bg, p.K, pubsub.WithReadMode(pubsub.ReadModeBeginning))
			} else {
				ch, err = sys(p.A).Sub(c.real(p.B), p.K, ttl(p)...)
			}
			if err == nil {
				r.ch = ch
				c.mu.Lock()
				c.raws[p.X] = r
				c.mu.Unlock()
				ch.Arrived(r.q)
				go func() {
					for {
						select {
						case <-r.q.C:
							v := r.q.Pop()
							if mw, ok := v.(*msg.Wrapper); ok {
								c.handle(p.X, "", mw)
							} else if v != nil {
								c.rec.Add("hs", "m", "?", "x", p.X, "same", false, "why", "not a message")
							}
						case <-r.stop:
							return
						}
					}
				}()
			}
			c.rec.Add("sret", "sb", p.X, "ok", err == nil, "why", fmt.Sprint(err))
		case "rclose":
			c.mu.Lock()
			r := c.raws[p.X]
			c.mu.Unlock()
			if r == nil {
				return
			}
			c.rec.Add("cinv", "sb", p.X)
			err := r.ch.Close()
			c.rec.Add("cret", "sb", p.X, "ok", err == nil, "why", fmt.Sprint(err))
		case "pub", "mpub":
			s := c.mk(p.X, p.V, p.K)
			c.rec.Add("pinv", "m", p.X, "tp", p.B, "ev", p.K, "mgr", p.A)
			var err error
			if p.Op == "pub" {
				err = sys(p.A).Pub(c.real(p.B), p.K, s.body)
			} else {
				err = mgr(p.A).GetOrCreateTopic(c.real(p.B)).Pub(bg, p.K, s.body)
			}
			c.rec.Add("pret", "m", p.X, "ok", err == nil, "why", fmt.Sprint(err))
		case "stop":
			c.rec.Add("stinv", "xs", []string{p.X})
			if p.F {
				c.mu.Lock()
				a := c.acts[p.X]
				c.mu.Unlock()
				a.Exit()
			} else {
				sys(p.A).Unregister(c.pfx+p.X, "S")
			}
			stops(p.X)
		case "down": // the whole node
			c.rec.Add("stinv", "xs", p.L)
			var wg sync.WaitGroup
			sys(p.A).Exit(&wg)
			wg.Wait()
			for _, x := range p.L {
				stops(x)
			}
		case "create":
			c.rec.Add("oinv", "o", p.X, "tp", p.B, "ttl", p.N, "mgr", p.A)
			mgr(p.A).GetOrCreateTopic(c.real(p.B), ttl(p)...)
			c.rec.Add("oret", "o", p.X)
		case "close":
			c.rec.Add("kinv", "k", p.X, "tp", p.B, "mgr", p.A)
			err := mgr(p.A).GetOrCreateTopic(c.real(p.B)).Close()
			c.rec.Add("kret", "k", p.X, "ok", err == nil, "why", fmt.Sprint(err))
		case "fault":
			e.rec.Add("fault", "on", p.F)
			if p.F {
				e.mr.SetError("told to fail")
			} else {
				e.mr.SetError("")
			}
		case "pfault": // some commands fail
			e.rec.Add("pfault", "on", p.K != "")
			failing.Store(p.K)
		case "go":
			for _, m := range p.L {
				c.gate.open(m)
			}
		case "look":
			c.look(names)
		default:
			harnessError("unknown op %q", p.Op)
		}
	}
	e.phases(sc, do, func(ms int) {
		time.Sleep(200 * time.Millisecond) // whatever is in flight is read and handled
		settle()
		e.rec.Add("calm")
		if ms > 1 {
			e.mr.FastForward(time.Duration(ms) * time.Millisecond)
			e.rec.Add("adv", "ms", ms)
		}
	})
	e.mr.SetError("")
	failing.Store("")
	c.mu.Lock()
	for m := range c.sent {
		c.gate.open(m)
	}
	var wg sync.WaitGroup
	for _, r := range c.raws {
		r := r
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { recover() }()
			r.ch.Close()
			close(r.stop)
		}()
	}
	for _, a := range c.acts {
		a := a
		go func() {
			defer func() { recover() }()
			a.Exit()
		}()
	}
	c.mu.Unlock()
	for i := 0; i < len(c.nodes); i++ {
		theLan.kill(at("10.0.0.1", 1000+20*e.rec.sc+i))
	}
	time.Sleep(12 * time.Second)
}

// look asks redis about every topic.
func (c *psub) look(names []string) {
	bg := context.Background()
	cl := trd.GetClient()
	l := []any{}
	for _, t := range names {
		rt := c.real(t)
		ex := cl.Exists(bg, rt).Val() == 1
		mem := cl.SIsMember(bg, pubsub.BraidPubsubTopic, rt).Val()
		n := int(cl.XLen(bg, rt).Val())
		gs := []string{}
		if ex {
			for _, g := range cl.XInfoGroups(bg, rt).Val() {
				gs = append(gs, g.Name)
			}
		}
		sort.Strings(gs)
		ms := -1
		if d := cl.PTTL(bg, rt).Val(); d > 0 {
			ms = int(d / time.Millisecond)
		}
		// the messages it holds
		held := []string{}
		for _, x := range cl.XRange(bg, rt, "-", "+").Val() {
			b, _ := x.Values["msg"].(string)
			m := "?"
			if i := strings.IndexByte(b, '|'); i >= 0 {
				m = b[:i]
			} else if b == "" && c.empty != "" {
				m = c.empty
			}
			held = append(held, m)
		}
		l = append(l, map[string]any{"tp": t, "ex": ex, "mem": mem, "len": n, "gs": gs, "ttl": ms, "held": held})
	}
	c.rec.Add("look", "l", l)
}
