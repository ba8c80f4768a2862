package drv

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"net"
	"sort"
	"strconv"
	"sync"
	"time"

	"github.com/opentracing/opentracing-go/mocktracer"
	trd "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/addressbook"
	"github.com/pojol/braid/core/node"
	"github.com/pojol/braid/lib/span"
	"github.com/pojol/braid/lib/tracer"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"

	"verifharness/vy"
)

// The cluster family: several nodes in one process over an in-memory network and one redis.

type tyCfg struct {
	W    int  `json:"w"`
	Lim  int  `json:"lim"`
	Uniq bool `json:"uniq"`
}

type sent struct {
	body   []byte
	ev     string
	token  string
	org    string
	orgTy  string
	tarTy  string
	custom map[string]string
	resCus map[string]string
	reply  []byte
	many   bool // the wrapper goes to several actors
}

type cnode struct {
	id   string
	ip   string
	port int
	sys  core.ISystem
	book *addressbook.AddressBook // the book a fake node or a previous incarnation writes through
}

type cluster struct {
	sem    chan int
	e      *env
	rec    *Rec
	sc     *PScn
	mu     sync.Mutex
	nodes  map[string]*cnode
	rev    map[string]string // real node id -> name
	pfx    string
	fac    *factory
	types  map[string]tyCfg
	prog   map[string][]P
	gate   *gates
	sent   map[string]*sent
	acts   map[string]*cact // registration -> instance
	cancel map[string]context.CancelFunc
	real   map[string]string // name of an actor -> id
	traced map[string]bool
	name   map[string]string
}

type cact struct {
	*actor.Runtime
	c *cluster
	x string
	n string
}

func (a *cact) Init(ctx context.Context) {
	a.Runtime.Init(ctx)
	for _, ev := range []string{"e1", "e2", "e3"} {
		ev := ev
		a.OnEvent(ev, func(actx core.ActorContext) core.IChain {
			return &actor.DefaultChain{Handler: func(mw *msg.Wrapper) error { return a.handle(actx, ev, mw) }}
		})
	}
}

// contents drawn from the name of the message
func (c *cluster) mk(m, kind string, ctx context.Context, org string) *msg.Wrapper {
	hh := fnv.New64()
	hh.Write([]byte(m + "/" + kind))
	r := rand.New(rand.NewSource(int64(hh.Sum64())))
	s := &sent{ev: "e" + strconv.Itoa(1+r.Intn(3)), token: "tk-" + m, org: org, orgTy: "ot-" + m, custom: map[string]string{}, resCus: map[string]string{}}
	bts := func(n int) []byte {
		b := make([]byte, n)
		r.Read(b)
		return b
	}
	switch kind {
	case "empty":
	case "big":
		s.body, s.reply = bts(150000), bts(90000)
	case "text":
		s.body, s.reply = []byte("body of "+m), []byte("reply to "+m)
	default:
		s.body, s.reply = bts(r.Intn(40)), bts(r.Intn(40))
	}
	switch k := r.Intn(10); {
	case k < 3: // the token tells
	case k == 3:
		s.token = ""
		s.custom["m"] = m
	default:
		s.custom["m"] = m
	}
	vals := []string{"", "v", "ключ \"q\" \\ \n", "12", "a=b&c"}
	for i := 0; i < r.Intn(3); i++ {
		s.custom["k"+strconv.Itoa(i)] = vals[r.Intn(5)]
	}
	for i := 0; i < r.Intn(3); i++ {
		s.resCus["r"+strconv.Itoa(i)] = vals[r.Intn(5)]
	}
	c.mu.Lock()
	c.sent[m] = s
	c.mu.Unlock()
	b := msg.NewBuilder(ctx).WithReqHeader(&router.Header{ID: "id-" + m, Token: s.token, OrgActorID: org, OrgActorType: s.orgTy})
	for k, v := range s.custom {
		b = b.WithReqCustomFields(msg.Attr{Key: k, Value: v})
	}
	return b.WithReqBody(s.body).Build()
}

func (a *cact) handle(actx core.ActorContext, ev string, mw *msg.Wrapper) error {
	c := a.c
	m := ""
	if len(mw.Req.Header.Token) > 3 {
		m = mw.Req.Header.Token[3:]
	}
	c.mu.Lock()
	s := c.sent[m]
	c.mu.Unlock()
	if s == nil {
		m = msg.GetReqCustomField[string](mw, "m")
		c.mu.Lock()
		s = c.sent[m]
		c.mu.Unlock()
	}
	if s == nil {
		c.rec.Add("hs", "m", "?", "x", a.x, "same", false)
		return nil
	}
	why := ""
	cm, err := mw.GetReqCustomMap()
	same := (err == nil || len(s.custom) == 0) && len(cm) == len(s.custom)
	if !same {
		why = fmt.Sprint("custom ", cm, err)
	}
	for k, v := range s.custom {
		if g, ok := cm[k].(string); !ok || g != v || msg.GetReqCustomField[string](mw, k) != v {
			same, why = false, "custom "+k
		}
	}
	h := mw.Req.Header
	if h.OrgActorType != s.orgTy || h.TargetActorType != s.tarTy {
		same, why = false, fmt.Sprintf("types %v, want %q %q", h, s.orgTy, s.tarTy)
	}
	if !bytes.Equal(mw.Req.Body, s.body) || h.Event != s.ev || ev != s.ev || h.Token != s.token || h.OrgActorID != s.org || h.ID != "id-"+m {
		same, why = false, fmt.Sprintf("header %v, want %q %q %q", h, s.ev, s.token, s.org)
	}
	prog := m
	if s.many {
		m += "/" + c.nameOf(a.Id)
	}
	c.rec.Add("hs", "m", m, "x", a.x, "same", same, "why", why)
	bad := false
	for _, p := range c.prog[prog] {
		switch p.Op {
		case "hold":
			<-c.gate.get(m)
		case "sleep":
			time.Sleep(time.Duration(p.N) * time.Millisecond)
		case "err":
			bad = true
		case "panic":
			c.rec.Add("he", "m", m, "x", a.x, "pan", true)
			panic("told to")
		case "put", "get", "who", "cunreg", "creg":
			c.ctxOp(p, a, actx)
		default: // call, send with a context of their own; ncall, nsend with the handler's
			ctx, cancel := context.WithCancel(context.Background())
			nested := p.Op == "ncall" || p.Op == "nsend"
			if p.Op == "rcall" {
				c.reenter(ctx, p, a, actx)
				time.AfterFunc(time.Minute, cancel)
				continue
			}
			if nested {
				ctx = mw.Ctx
			}
			c.issue(ctx, p, a.n, a.x, a.Ty, m, func(org string) (string, func(to, ty, ev string, n *msg.Wrapper) error) {
				if p.Op == "send" || p.Op == "nsend" {
					return org, actx.Send
				}
				if org == "" {
					org = a.Id
				}
				return org, actx.Call
			}, h.OrgActorID)
			if p.Op == "call" {
				cancel()
			} else {
				time.AfterFunc(time.Minute, cancel)
			}
		}
	}
	if !s.many {
		mw.Res.Body = s.reply
		mw.Res.Header.Token = "rt-" + m
		for k, v := range s.resCus {
			mw.ToBuilder().WithResCustomFields(msg.Attr{Key: k, Value: v})
		}
	}
	c.rec.Add("he", "m", m, "x", a.x, "pan", false)
	if bad {
		return errHandler
	}
	return nil
}

// issue performs a call or send; org is what the sender carries on (with f) or nothing
func (c *cluster) issue(ctx context.Context, p P, n, by, byTy, parent string, via func(string) (string, func(to, ty, ev string, n *msg.Wrapper) error), carried string) {
	org := ""
	if p.F {
		org = carried
	}
	seen, f := via(org)
	mw := c.mk(p.X, p.V, ctx, seen)
	mw.Req.Header.OrgActorID = org // Call fills it in
	c.mu.Lock()
	s := c.sent[p.X]
	to := p.B
	if r, ok := c.real[to]; ok {
		to = r
	}
	s.tarTy = p.K
	if org == "" && byTy != "" && (p.Op == "call" || p.Op == "ncall") {
		s.orgTy = byTy
	}
	s.many = len(p.Ops) > 0
	c.mu.Unlock()
	if p.Op == "nsend" || p.Op == "ncall" {
	} else {
		parent = ""
	}
	dl := -1
	if d, ok := ctx.Deadline(); ok {
		dl = int(d.Sub(c.rec.start) / time.Millisecond)
	}
	if s.many { // the same wrapper to one actor after the other
		for _, b := range append([]string{p.B}, p.Ops...) {
			m := p.X + "/" + b
			c.rec.Add("inv", "m", m, "k", p.Op, "nd", n, "by", by, "p", parent, "to", b, "ty", p.K, "org", c.nameOf(seen), "dl", dl)
			err := f(c.idOf(b), p.K, s.ev, mw)
			c.rec.Add("ret", "m", m, "ok", err == nil, "err", err != nil, "same", true, "why", fmt.Sprint(err))
		}
		return
	}
	c.rec.Add("inv", "m", p.X, "k", p.Op, "nd", n, "by", by, "p", parent, "to", p.B, "ty", p.K, "org", c.nameOf(seen), "dl", dl)
	err := f(to, p.K, s.ev, mw)
	c.ret(p, s, mw, err)
}

func (c *cluster) ret(p P, s *sent, mw *msg.Wrapper, err error) {
	if p.Op == "send" || p.Op == "nsend" {
		c.rec.Add("ret", "m", p.X, "ok", err == nil, "err", err != nil, "same", true, "why", fmt.Sprint(err))
		return
	}
	if err != nil { // handlers may still be writing the response
		c.rec.Add("ret", "m", p.X, "ok", false, "err", true, "same", false, "why", err.Error())
		return
	}
	same := mw != nil && mw.Err == nil && mw.Res != nil && mw.Res.Header != nil && bytes.Equal(mw.Res.Body, s.reply) && mw.Res.Header.Token == "rt-"+p.X
	if same {
		cm, err := mw.GetResCustomMap()
		same = len(cm) == len(s.resCus) && (err == nil || len(s.resCus) == 0)
		for k, v := range s.resCus {
			g, ok := cm[k].(string)
			same = same && ok && g == v
		}
	}
	c.rec.Add("ret", "m", p.X, "ok", mw.Err == nil, "err", false, "same", same, "why", fmt.Sprint(mw.Err))
}

// reenter calls another actor without waiting; the result comes back through a future
func (c *cluster) reenter(ctx context.Context, p P, a *cact, actx core.ActorContext) {
	mw := c.mk(p.X, p.V, ctx, a.Id)
	mw.Req.Header.OrgActorID = ""
	mw.Req.Header.OrgActorType = ""
	to := c.idOf(p.B)
	c.mu.Lock()
	s := c.sent[p.X]
	s.orgTy, s.tarTy = a.Ty, p.K
	c.mu.Unlock()
	c.rec.Add("inv", "m", p.X, "k", p.Op, "nd", a.n, "by", a.x, "p", "", "to", p.B, "ty", p.K, "org", c.nameOf(a.Id), "dl", -1)
	actx.ReenterCall(to, p.K, s.ev, mw).Then(func(r *msg.Wrapper) {
		c.ret(p, s, r, r.Err)
	})
}

func (c *cluster) nameOf(id string) string {
	c.mu.Lock()
	defer c.mu.Unlock()
	if n, ok := c.name[id]; ok {
		return n
	}
	return id
}

func (c *cluster) idOf(name string) string {
	c.mu.Lock()
	defer c.mu.Unlock()
	if r, ok := c.real[name]; ok {
		return r
	}
	return name
}

func (c *cluster) node(name string) *cnode {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.nodes[name]
}

func at(ip string, port int) string { return ip + ":" + strconv.Itoa(port) }

func (c *cluster) start(n string, real bool) {
	nd := c.node(n)
	c.rec.Add("node", "nd", n, "at", at(nd.ip, nd.port), "up", real)
	nd.book = addressbook.New(core.AddressInfo{Node: nd.id, Ip: nd.ip, Port: nd.port})
	if real {
		c.sem <- 1 // there is one node per process, really
		defer func() { <-c.sem }()
		theLan.at(nd.ip)
		opts := []core.NodeOption{core.NodeWithID(nd.id), core.NodeWithIP(nd.ip), core.NodeWithPort(nd.port), core.NodeWithLoader(c.fac), core.NodeWithFactory(c.fac)}
		if c.traced[n] { // tracing changes nothing
			opts = append(opts, core.NodeWithTracer(&callTracer{tr: mocktracer.New()}))
		}
		p := node.BuildProcessWithOption(opts...)
		nd.sys = p.System()
	}
}

type callTracer struct{ tr *mocktracer.MockTracer }

func (t *callTracer) GetSpan(strategy string) (tracer.ISpan, error) {
	if strategy != span.SystemCall {
		return nil, tracer.ErrFactoryNotExist
	}
	return span.CreateCallSpan(span.WithNodeID("x"))(t.tr)
}
func (t *callTracer) GetTracing() interface{} { return t.tr }

// ctxOp performs what a handler does with its actor's context
func (c *cluster) ctxOp(p P, a *cact, actx core.ActorContext) {
	type key string
	bg := context.Background()
	switch p.Op {
	case "put":
		actx.WithValue(key(p.K), p.V)
		c.rec.Add("put", "x", a.x, "k", p.K, "v", p.V)
	case "get":
		v, _ := actx.GetValue(key(p.K)).(string)
		c.rec.Add("get", "x", a.x, "k", p.K, "v", v)
	case "who":
		sys := c.node(a.n).sys
		b := actx.Loader(a.Ty)
		own := sys == nil || (actx.System() == sys && actx.AddressBook() == sys.AddressBook() && b.GetSystem() == sys)
		c.rec.Add("who", "x", a.x, "id", c.nameOf(actx.ID()), "ty", actx.Type(), "own", own && b.GetType() == a.Ty)
	case "cunreg":
		id := c.idOf(p.B)
		if id == a.Id { // an actor cannot wait for its own end
			return
		}
		c.rec.Add("uinv", "u", p.X, "nd", a.n, "id", p.B)
		actx.Unregister(id, p.K)
		c.rec.Add("uret", "u", p.X)
	case "creg":
		t := c.types[p.K]
		c.rec.Add("rinv", "x", p.X, "nd", a.n, "id", p.B, "ty", p.K, "w", t.W, "lim", t.Lim, "uniq", t.Uniq)
		_, err := actx.Loader(p.K).WithID(c.idOf(p.B)).WithOpt("x", p.X).Register(bg)
		c.rec.Add("rret", "x", p.X, "ok", err == nil, "why", fmt.Sprint(err))
	}
}

type wildcard interface {
	GetWildcardActor(ctx context.Context, actorType string) (core.AddressInfo, error)
}

func (e *env) runCluster(raw json.RawMessage) {
	useLan()
	sc := e.pscn(raw)
	c := &cluster{e: e, sem: make(chan int, 1), rec: e.rec, sc: sc, nodes: map[string]*cnode{}, rev: map[string]string{}, fac: newFactory(), types: map[string]tyCfg{},
		prog: map[string][]P{}, gate: &gates{}, sent: map[string]*sent{}, acts: map[string]*cact{}, cancel: map[string]context.CancelFunc{},
		real: map[string]string{}, name: map[string]string{}, pfx: fmt.Sprintf("s%d.", e.rec.sc)}
	var nodes map[string]string
	var ids map[string]string
	sc.cfg("nodes", &nodes)
	sc.cfg("types", &c.types)
	sc.cfg("prog", &c.prog)
	sc.cfg("ids", &ids)
	sc.cfg("traced", &c.traced)
	var names []string
	for n := range nodes {
		names = append(names, n)
	}
	sort.Strings(names)
	for i, n := range names {
		// nodes may share an ip or a port, but not both
		ip, port := 1+i/2, i
		if e.rec.sc%2 == 0 {
			ip, port = 1+i, i/2
		}
		c.nodes[n] = &cnode{id: c.pfx + nodes[n], ip: "10.0.0." + strconv.Itoa(ip), port: 1000 + 20*e.rec.sc + port}
		c.rev[c.pfx+nodes[n]] = n
	}
	for n, s := range ids {
		c.real[n] = c.pfx + s
		c.name[c.pfx+s] = n
	}
	var idNames, tyNames []string
	for n := range ids {
		idNames = append(idNames, n)
	}
	sort.Strings(idNames)
	for n := range c.types {
		tyNames = append(tyNames, n)
	}
	sort.Strings(tyNames)
	known := []string{}
	for _, ty := range tyNames {
		t := c.types[ty]
		if t.W == -999 { // a type no node knows
			continue
		}
		known = append(known, ty)
		c.fac.add(&core.ActorConstructor{Name: ty, Weight: t.W, GlobalQuantityLimit: t.Lim, NodeUnique: t.Uniq, Dynamic: len(ty)%2 == 0, Constructor: func(b core.IActorBuilder) core.IActor {
			x := b.GetOpt("x")
			a := &cact{Runtime: &actor.Runtime{Id: b.GetID(), Ty: b.GetType(), Sys: b.GetSystem()}, c: c, x: x}
			for n, nd := range c.nodes {
				if nd.sys == b.GetSystem() {
					a.n = n
				}
			}
			c.mu.Lock()
			c.acts[x] = a
			c.mu.Unlock()
			e.rec.Add("built", "x", x, "nd", a.n)
			return a
		}})
	}
	e.rec.Add("cfg", "known", known)
	bg := context.Background()
	exited := map[core.ISystem]bool{}
	do := func(p P) {
		nd := c.node(p.A)
		switch p.Op {
		case "reg", "unreg", "exit":
			if nd.sys == nil {
				return
			}
		}
		switch p.Op {
		case "start":
			c.start(p.A, true)
		case "fake":
			c.start(p.A, false)
		case "reg":
			t := c.types[p.K]
			e.rec.Add("rinv", "x", p.X, "nd", p.A, "id", p.B, "ty", p.K, "w", t.W, "lim", t.Lim, "uniq", t.Uniq)
			_, err := nd.sys.Loader(p.K).WithID(c.idOf(p.B)).WithOpt("x", p.X).Register(bg)
			e.rec.Add("rret", "x", p.X, "ok", err == nil, "why", fmt.Sprint(err))
		case "unreg":
			e.rec.Add("uinv", "u", p.X, "nd", p.A, "id", p.B)
			nd.sys.Unregister(c.idOf(p.B), p.K)
			e.rec.Add("uret", "u", p.X)
		case "stop": // the actor alone stops: it refuses messages, its record stays
			c.mu.Lock()
			a := c.acts[p.X]
			c.mu.Unlock()
			if a != nil {
				e.rec.Add("stop", "x", p.X)
				a.Exit()
			}
		case "raw":
			book := nd.book
			var err error
			if p.F {
				err = nd.sys.AddressBook().Register(bg, p.K, c.idOf(p.B), p.N)
			} else {
				err = book.Register(bg, p.K, c.idOf(p.B), p.N)
			}
			e.rec.Add("raw", "x", p.X, "nd", p.A, "id", p.B, "ty", p.K, "w", p.N, "ok", err == nil)
		case "rawdel":
			e.rec.Add("uinv", "u", p.X, "nd", "", "id", p.B)
			nd.book.Unregister(bg, c.idOf(p.B), p.N)
			e.rec.Add("uret", "u", p.X)
		case "exit":
			e.rec.Add("einv", "u", p.X, "nd", p.A)
			var wg sync.WaitGroup
			nd.sys.Exit(&wg)
			wg.Wait()
			c.mu.Lock()
			exited[nd.sys] = true
			c.mu.Unlock()
			e.rec.Add("eret", "u", p.X, "nd", p.A)
		case "kill":
			e.rec.Add("kill", "nd", p.A)
			theLan.kill(at(nd.ip, nd.port))
			nd.sys = nil
		case "fault":
			e.rec.Add("fault", "on", p.F)
			if p.F {
				e.mr.SetError("told to fail")
			} else {
				e.mr.SetError("")
			}
		case "go":
			for _, m := range p.L {
				c.gate.open(m)
			}
		case "cancel":
			c.mu.Lock()
			f := c.cancel[p.X]
			c.mu.Unlock()
			if f != nil {
				e.rec.Add("cancel", "m", p.X)
				f()
			}
		case "call", "send":
			ctx, f := context.WithCancel(bg)
			if p.M > 0 {
				var f2 context.CancelFunc
				ctx, f2 = context.WithTimeout(ctx, time.Duration(p.M)*time.Millisecond)
				if p.Op == "call" {
					defer f2()
				} else {
					defer time.AfterFunc(time.Minute, f2) // the message goes on in this context
				}
			}
			sys := nd.sys
			if sys == nil {
				return
			}
			carried := ""
			if len(p.L) > 0 {
				carried = p.L[0]
			}
			c.issue(ctx, p, p.A, "", "", "", func(org string) (string, func(to, ty, ev string, n *msg.Wrapper) error) {
				c.mu.Lock()
				c.cancel[p.X] = f
				c.mu.Unlock()
				if p.Op == "send" {
					return org, sys.Send
				}
				return org, sys.Call
			}, c.idOf(carried))
		case "view":
			c.view(idNames, tyNames, names, exited)
		default:
			harnessError("unknown op %q", p.Op)
		}
	}
	e.phases(sc, do, nil)
	e.mr.SetError("")
	for _, nd := range c.nodes {
		theLan.kill(at(nd.ip, nd.port))
	}
	c.mu.Lock()
	for m := range c.sent {
		c.gate.open(m)
	}
	for _, f := range c.cancel {
		f()
	}
	for _, a := range c.acts {
		a := a
		go func() {
			defer func() { recover() }()
			a.Exit()
		}()
	}
	c.mu.Unlock()
	time.Sleep(15 * time.Second)
}

// view asks every node everything.
func (c *cluster) view(ids, tys, names []string, exited map[core.ISystem]bool) {
	bg := context.Background()
	nameOfNode := func(id string) string {
		if n, ok := c.rev[id]; ok {
			return n
		}
		return "?" + id
	}
	byid, byty, low, wild, loc := []any{}, []any{}, []any{}, []any{}, []any{}
	for _, n := range names {
		nd := c.node(n)
		if nd.sys == nil {
			continue
		}
		// what runs on the node itself, in one list and one by one
		run, found := []string{}, []string{}
		for _, a := range nd.sys.Actors() {
			run = append(run, c.nameOf(a.ID()))
		}
		for _, i := range ids {
			if a, err := nd.sys.FindActor(bg, c.idOf(i)); err == nil {
				found = append(found, c.nameOf(a.ID()))
			}
		}
		sort.Strings(run)
		sort.Strings(found)
		loc = append(loc, map[string]any{"v": n, "l": run, "f": found})
		ab := nd.sys.AddressBook()
		for _, i := range ids {
			in, err := ab.GetByID(bg, c.idOf(i))
			byid = append(byid, map[string]any{"v": n, "id": i, "f": err == nil, "n": nameOfNode(in.Node), "at": at(in.Ip, in.Port), "same": in.ActorId == c.idOf(i)})
		}
		for _, ty := range tys {
			l, err := ab.GetByType(bg, ty)
			out := []any{}
			for _, in := range l {
				out = append(out, map[string]any{"id": c.nameOf(in.ActorId), "n": nameOfNode(in.Node), "at": at(in.Ip, in.Port), "ty": in.ActorTy})
			}
			cnt, err2 := ab.GetActorTypeCount(bg, ty)
			byty = append(byty, map[string]any{"v": n, "ty": ty, "l": out, "cnt": cnt, "ok": err == nil && err2 == nil})
			if w, ok := ab.(wildcard); ok {
				for k := 0; k < 2; k++ {
					in, err := w.GetWildcardActor(bg, ty)
					wild = append(wild, map[string]any{"v": n, "ty": ty, "f": err == nil, "id": c.nameOf(in.ActorId), "n": nameOfNode(in.Node), "aty": in.ActorTy, "at": at(in.Ip, in.Port)})
				}
			}
			in, err := ab.GetLowWeightNodeForActor(bg, ty)
			low = append(low, map[string]any{"v": n, "ty": ty, "f": err == nil, "n": nameOfNode(in.Node), "at": at(in.Ip, in.Port)})
		}
	}
	ws := []any{}
	reg := trd.GetClient().HKeys(bg, "braid.addressbook.nodes").Val()
	for _, n := range names {
		nd := c.node(n)
		h := trd.GetClient().HGetAll(bg, "{node:"+nd.id+"}").Val()
		tot, _ := strconv.Atoi(h["total_weight"])
		per := map[string]int{}
		for _, ty := range tys {
			per[ty], _ = strconv.Atoi(h["actor:"+ty])
		}
		in := false
		for _, r := range reg {
			in = in || r == nd.id
		}
		ws = append(ws, map[string]any{"n": n, "tot": tot, "per": per, "in": in, "key": len(h) > 0})
	}
	alive := []string{}
	c.mu.Lock()
	acts := map[string]*cact{}
	for x, a := range c.acts {
		acts[x] = a
	}
	c.mu.Unlock()
	for x, a := range acts {
		if exited[a.Sys] && a.Received(msg.NewBuilder(bg).Build()) == nil {
			alive = append(alive, x)
		}
	}
	sort.Strings(alive)
	c.rec.Add("view", "byid", byid, "byty", byty, "low", low, "wild", wild, "loc", loc, "ws", ws, "alive", alive)
}

var _ net.Conn
var _ = vy.P
