package drv

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"sync"
	"testing/synctest"
	"time"

	"github.com/opentracing/opentracing-go/mocktracer"
	"github.com/pojol/braid/core"
	"github.com/pojol/braid/core/actor"
	"github.com/pojol/braid/core/node"
	"github.com/pojol/braid/router/msg"

	"verifharness/vy"
)

// Scenario of the actor family: one node, a few actors whose handlers do what they are told.
type ActorScn struct {
	ID     string            `json:"id"`
	Actors [][2]string       `json:"actors"` // name, type
	Prog   map[string][]Op   `json:"prog"`   // message -> ops queued beforehand
	TmProg map[string][]TmOp `json:"tmprog"` // timer -> what its firings do
	BFail  map[string]string `json:"bfail"`  // message -> before-step failure: err | panic
	AFail  map[string]string `json:"afail"`  // message -> after-step failure
	Steps  []Step            `json:"steps"`
	Slack  int               `json:"slack"`
	Sched  *Sched            `json:"sched"`
	Auto   bool              `json:"auto"` // messages without a program end at once instead of waiting
}

// Op is an instruction to a handler.
type Op struct {
	Do   string `json:"do"` // ncall nsend send call re sleep end tmreg tmcancel tmreset exit
	M    string `json:"m,omitempty"`
	To   string `json:"to,omitempty"` // actor name, or ? or ~
	Ty   string `json:"ty,omitempty"`
	Fwd  bool   `json:"fwd,omitempty"` // carry the header of the message being handled
	Dl   int    `json:"dl,omitempty"`  // deadline ms, 0 none
	Ms   int    `json:"ms,omitempty"`
	Out  string `json:"out,omitempty"`
	Tm   string `json:"tm,omitempty"`
	Due  int    `json:"due,omitempty"`
	Ival int    `json:"ival,omitempty"`
	X    string `json:"x,omitempty"`
	A    string `json:"a,omitempty"`
	Own  bool   `json:"own,omitempty"` // pass on the very wrapper that is being handled
	Inh  bool   `json:"inh,omitempty"` // re: inherit the context of the message being handled
	Via  string `json:"via,omitempty"` // sys: call through the system instead of the actor's context
	Ev   string `json:"ev,omitempty"`  // event addressed, "ev" if empty
}

// TmOp happens at the At-th firing of a timer (0: every firing).
type TmOp struct {
	At int `json:"at"`
	Op
}

// Step is an instruction to the director.
type Step struct {
	Op   string   `json:"op"` // inv tok cancel adv settle exit unreg stops
	M    string   `json:"m,omitempty"`
	Kind string   `json:"kind,omitempty"`
	To   string   `json:"to,omitempty"`
	Ty   string   `json:"ty,omitempty"`
	Dl   int      `json:"dl,omitempty"`
	Org  string   `json:"org,omitempty"`
	Do   *Op      `json:"do,omitempty"`
	Ms   int      `json:"ms,omitempty"`
	X    string   `json:"x,omitempty"`
	A    string   `json:"a,omitempty"`
	L    []string `json:"l,omitempty"` // invs: messages sent one after the other by one client
	One  bool     `json:"one,omitempty"` // invs: with one wrapper, as long as the calls succeed
	Ev   string   `json:"ev,omitempty"`
}

func evOf(ev string) string {
	if ev == "" {
		return "ev"
	}
	return ev
}

var errHandler = errors.New("handler error")

type world struct {
	rec    *Rec
	sc     *ActorScn
	pfx    string
	nd     core.INode
	sys    core.ISystem
	mu     sync.Mutex
	ctl    map[string]chan Op
	closed bool
	cancel map[string]context.CancelFunc
	tms    map[string]core.ITimer
	tmN    map[string]int
	acts   map[string]core.IActor
	afail  map[string]string
	tys    map[string]string
	cur    map[curKey]string    // what an actor handles when it handles a wrapper
	given  map[*msg.Wrapper]int // wrappers passed on: 1 called or sent, 2 re-entrant
	mute   map[string]bool      // messages whose handler leaves the response alone
	tmOff  map[string]bool
	busy   map[string]int // operations that wait for nobody, under way
}

type curKey struct {
	a string
	w *msg.Wrapper
}

func (w *world) curOf(a string, mw *msg.Wrapper) string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.cur[curKey{a, mw}]
}

// passOn marks a wrapper as passed on by the handler of m, once.
func (w *world) passOn(mw *msg.Wrapper, how int, next string) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.given[mw] != 0 {
		return false
	}
	w.given[mw] = how
	if how == 1 {
		w.mute[next] = true
	}
	return true
}

func (w *world) givenRe(mw *msg.Wrapper) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.given[mw] == 2
}

func (w *world) chanOf(m string) chan Op {
	w.mu.Lock()
	defer w.mu.Unlock()
	c, ok := w.ctl[m]
	if !ok {
		c = make(chan Op, 256)
		for _, o := range w.sc.Prog[m] {
			c <- o
		}
		if w.closed || (w.sc.Auto && len(w.sc.Prog[m]) == 0) {
			close(c)
		}
		w.ctl[m] = c
	}
	return c
}

func (w *world) real(a string) string {
	if a == "?" || a == "~" || a == "" {
		return a
	}
	return w.pfx + a
}
func (w *world) short(id string) string {
	if len(id) >= len(w.pfx) && id[:len(w.pfx)] == w.pfx {
		return id[len(w.pfx):]
	}
	return id
}

func (w *world) tyOf(o, ty string) string {
	if ty != "" {
		return ty
	}
	return w.tys[o]
}

func specTo(to string) string {
	if to == "?" || to == "~" {
		return ""
	}
	return to
}

type vact struct {
	*actor.Runtime
	w    *world
	name string
}

func (a *vact) Init(ctx context.Context) {
	a.Runtime.Init(ctx)
	a.onEvent("ev")
}

func (a *vact) onEvent(ev string) error {
	return a.OnEvent(ev, func(actx core.ActorContext) core.IChain {
		return &actor.DefaultChain{
			Before:  []actor.EventHandler{func(mw *msg.Wrapper) error { return a.before(mw, ev) }},
			Handler: func(mw *msg.Wrapper) error { return a.handle(actx, mw) },
			After:   []actor.EventHandler{func(mw *msg.Wrapper) error { return a.after(mw) }},
		}
	})
}

// register a further event while the actor is running
// nb marks an operation that does not wait for anybody, until the returned function is called
func (w *world) nb(k string) func() {
	w.mu.Lock()
	w.busy[k]++
	w.mu.Unlock()
	return func() {
		w.mu.Lock()
		w.busy[k]--
		w.mu.Unlock()
	}
}

// quiet: nothing moves any more
func (w *world) quiet() {
	w.mu.Lock()
	ks := []string{}
	for k, n := range w.busy {
		if n > 0 {
			ks = append(ks, k)
		}
	}
	w.mu.Unlock()
	sort.Strings(ks)
	for _, k := range ks {
		w.rec.Add("hung", "k", k)
	}
	w.rec.Add("quiet")
}

func (w *world) onev(x, a, ev string) {
	w.rec.Add("onev", "x", x, "a", a, "ev", ev)
	done := w.nb("onev")
	err := w.acts[a].(*vact).onEvent(ev)
	done()
	w.rec.Add("onret", "x", x, "ok", err == nil)
}

func (a *vact) fail(m, how string) error {
	if how == "panic" {
		a.w.rec.Add("he", "a", a.name, "m", m, "out", "panic")
		panic("handler panic " + m)
	}
	a.w.rec.Add("he", "a", a.name, "m", m, "out", "err")
	return errHandler
}

func (a *vact) before(mw *msg.Wrapper, ev string) error {
	m := string(mw.Req.Body)
	a.w.mu.Lock()
	a.w.cur[curKey{a.name, mw}] = m
	a.w.mu.Unlock()
	a.w.rec.Add("hs", "a", a.name, "m", m, "ev", ev)
	if f := a.w.sc.BFail[m]; f != "" {
		return a.fail(m, f)
	}
	return nil
}

func (a *vact) handle(actx core.ActorContext, mw *msg.Wrapper) error {
	w := a.w
	m := w.curOf(a.name, mw)
	c := w.chanOf(m)
	for o := range c {
		switch o.Do {
		case "ncall", "nsend":
			b := msg.NewBuilder(mw.Ctx)
			org, by := "", a.name
			if o.Fwd {
				b = b.WithReqHeader(mw.Req.Header)
				org = w.short(mw.Req.Header.OrgActorID)
			}
			if o.Do == "ncall" && org == "" && o.Via == "" {
				org = a.name
			}
			own := ""
			var n *msg.Wrapper
			if o.Own && o.To != a.name && w.passOn(mw, 1, o.M) {
				n, own, org = mw, m, w.short(mw.Req.Header.OrgActorID)
				if o.Do == "ncall" && o.Via == "" && org == "" {
					org = a.name
				}
				n.Req.Body = []byte(o.M)
			} else {
				n = b.WithReqBody([]byte(o.M)).Build()
				if o.Via == "sys" && o.Do == "ncall" && !o.Fwd {
					org = ""
				}
			}
			w.rec.Add("inv", "m", o.M, "kind", "ncall", "to", specTo(o.To), "ty", w.tyOf(o.To, o.Ty), "ev", evOf(o.Ev), "by", by, "org", org, "p", m, "dl", -1, "px", "", "own", own)
			var err error
			done := w.nb("send")
			if o.Do == "ncall" && o.Via == "sys" {
				err = actx.System().Call(w.real(o.To), w.tyOf(o.To, o.Ty), evOf(o.Ev), n)
			} else if o.Do == "ncall" {
				err = actx.Call(w.real(o.To), w.tyOf(o.To, o.Ty), evOf(o.Ev), n)
			} else {
				err = actx.Send(w.real(o.To), w.tyOf(o.To, o.Ty), evOf(o.Ev), n)
			}
			done()
			w.rec.Add("ret", "m", o.M, "ok", err == nil, "merr", false, "res", "")
		case "send":
			n := msg.NewBuilder(context.Background()).WithReqBody([]byte(o.M)).Build()
			w.rec.Add("inv", "m", o.M, "kind", "send", "to", specTo(o.To), "ty", w.tyOf(o.To, o.Ty), "ev", evOf(o.Ev), "by", a.name, "org", "", "p", "", "dl", -1, "px", "", "own", "")
			done := w.nb("send")
			err := actx.Send(w.real(o.To), w.tyOf(o.To, o.Ty), evOf(o.Ev), n)
			done()
			w.rec.Add("ret", "m", o.M, "ok", err == nil, "merr", false, "res", "")
		case "call":
			ctx, cancel := w.ctxFor(o.M, o.Dl)
			n := msg.NewBuilder(ctx).WithReqBody([]byte(o.M)).Build()
			org := a.name
			if o.Fwd && mw.Req.Header.OrgActorID != "" {
				n.Req.Header.OrgActorID = mw.Req.Header.OrgActorID
				org = w.short(mw.Req.Header.OrgActorID)
			}
			w.rec.Add("inv", "m", o.M, "kind", "call", "to", specTo(o.To), "ty", w.tyOf(o.To, o.Ty), "ev", evOf(o.Ev), "by", a.name, "org", org, "p", "", "dl", w.dlOf(ctx), "px", "", "own", "")
			w.began(o.M, cancel)
			err := actx.Call(w.real(o.To), w.tyOf(o.To, o.Ty), evOf(o.Ev), n)
			w.rec.Add("ret", "m", o.M, "ok", err == nil, "merr", n.Err != nil, "res", w.resFor(n, o.M, err))
			w.rec.Add("cancel", "m", o.M)
			cancel()
		case "re":
			var n *msg.Wrapper
			px, own := "", ""
			cancel := func() {}
			org := a.name
			if o.Own && o.To != a.name && w.passOn(mw, 2, o.M) {
				n, px, own = mw, m, m
				n.Req.Body = []byte(o.M)
				if mw.Req.Header.OrgActorID != "" {
					org = w.short(mw.Req.Header.OrgActorID)
				}
			} else {
				ctx := mw.Ctx
				if o.Inh {
					px = m
				} else {
					ctx, cancel = w.ctxFor(o.M, o.Dl)
				}
				n = msg.NewBuilder(ctx).WithReqBody([]byte(o.M)).Build()
				if o.Fwd && mw.Req.Header.OrgActorID != "" {
					n.Req.Header.OrgActorID = mw.Req.Header.OrgActorID
					org = w.short(mw.Req.Header.OrgActorID)
				}
			}
			w.rec.Add("inv", "m", o.M, "kind", "re", "to", specTo(o.To), "ty", w.tyOf(o.To, o.Ty), "ev", evOf(o.Ev), "by", a.name, "org", org, "p", "", "dl", w.dlOf(n.Ctx), "px", px, "own", own)
			if px == "" {
				w.began(o.M, cancel)
			}
			done := w.nb("re")
			f := actx.ReenterCall(w.real(o.To), w.tyOf(o.To, o.Ty), evOf(o.Ev), n)
			done()
			mm := o.M
			w.rec.Add("rret", "m", mm)
			f.Then(func(r *msg.Wrapper) {
				ok, res := true, ""
				if r == nil || r.Err != nil {
					ok = false
				} else {
					res = resOf(r)
				}
				w.rec.Add("fc", "m", mm, "ok", ok, "res", res)
			})
		case "sleep":
			time.Sleep(time.Duration(o.Ms) * time.Millisecond)
		case "exit", "unreg":
			// stop another actor from inside a handler
			w.stop(o.X, o.A, o.Do)
		case "onev":
			w.onev(o.X, a.name, o.Ev)
		case "tmreg":
			a.tmReg(o)
		case "tmcancel":
			a.tmCancel(o.Tm)
		case "tmreset":
			a.tmReset(o)
		case "end":
			switch o.Out {
			case "err", "panic":
				return a.fail(m, o.Out)
			case "aerr", "apanic":
				w.mu.Lock()
				w.afail[m] = o.Out[1:]
				w.mu.Unlock()
			}
			a.respond(mw, m)
			return nil
		case "tmstop":
			a.tmStop(o.Tm)
		default:
			harnessError("unknown op %q", o.Do)
		}
	}
	a.respond(mw, m)
	return nil
}

// respond sets the response, unless the wrapper is shared with another handler that does
func (a *vact) respond(mw *msg.Wrapper, m string) {
	w := a.w
	w.mu.Lock()
	quiet := w.mute[m] || w.given[mw] == 2
	w.mu.Unlock()
	if !quiet {
		mw.Res.Body = []byte(m)
	}
}

func (a *vact) after(mw *msg.Wrapper) error {
	w := a.w
	m := w.curOf(a.name, mw)
	w.mu.Lock()
	f := w.afail[m]
	w.mu.Unlock()
	if f != "" {
		return a.fail(m, f)
	}
	w.rec.Add("he", "a", a.name, "m", m, "out", "ok")
	return nil
}

func (a *vact) tmReg(o Op) {
	defer a.w.nb("timer")()
	w := a.w
	tm := o.Tm
	fired := 0
	var self core.ITimer
	w.rec.Add("tmreg", "tm", tm, "a", a.name, "due", o.Due, "ival", o.Ival)
	self = a.OnTimer(int64(o.Due), int64(o.Ival), func(arg interface{}) error {
		w.rec.Add("ts", "tm", tm, "a", a.name)
		fired++
		w.mu.Lock()
		w.tmN[tm] = fired
		w.mu.Unlock()
		var out string
		for _, p := range w.sc.TmProg[tm] {
			if p.At != 0 && p.At != fired {
				continue
			}
			switch p.Do {
			case "sleep":
				time.Sleep(time.Duration(p.Ms) * time.Millisecond)
			case "tmcancel":
				if p.Tm == tm {
					w.off(tm)
					w.rec.Add("tmcancel", "tm", tm)
					done := w.nb("timer")
					a.CancelTimer(self)
					done()
				} else {
					a.tmCancel(p.Tm)
				}
			case "tmreset":
				a.tmReset(p.Op)
			case "tmstop":
				a.tmStop(p.Tm)
			case "tmreg":
				a.tmReg(p.Op)
			case "send":
				n := msg.NewBuilder(context.Background()).WithReqBody([]byte(p.M)).Build()
				w.rec.Add("inv", "m", p.M, "kind", "send", "to", specTo(p.To), "ty", w.tyOf(p.To, p.Ty), "ev", evOf(p.Ev), "by", a.name, "org", "", "p", "", "dl", -1, "px", "", "own", "")
				done := w.nb("send")
				err := a.Sys.Send(w.real(p.To), w.tyOf(p.To, p.Ty), evOf(p.Ev), n)
				done()
				w.rec.Add("ret", "m", p.M, "ok", err == nil, "merr", false, "res", "")
			case "err", "panic":
				out = p.Do
			}
		}
		w.rec.Add("te", "tm", tm, "a", a.name)
		if out == "panic" {
			panic("timer panic")
		}
		if out == "err" {
			return errHandler
		}
		return nil
	}, nil)
	w.mu.Lock()
	w.tms[tm] = self
	w.mu.Unlock()
}

func (a *vact) tmCancel(tm string) {
	defer a.w.nb("timer")()
	a.w.mu.Lock()
	t := a.w.tms[tm]
	a.w.mu.Unlock()
	if t == nil {
		return
	}
	a.w.off(tm)
	a.w.rec.Add("tmcancel", "tm", tm)
	a.CancelTimer(t)
}

func (w *world) off(tm string) {
	w.mu.Lock()
	w.tmOff[tm] = true
	w.mu.Unlock()
}

// tmStop pauses a periodic timer that has fired before (a reset resumes it)
func (a *vact) tmStop(tm string) {
	defer a.w.nb("timer")()
	a.w.mu.Lock()
	t := a.w.tms[tm]
	if a.w.tmN[tm] == 0 || a.w.tmOff[tm] {
		t = nil
	}
	a.w.mu.Unlock()
	if t == nil || t.Interval() == 0 {
		return
	}
	a.w.rec.Add("tmstop", "tm", tm)
	t.Stop()
}

func (a *vact) tmReset(o Op) {
	defer a.w.nb("timer")()
	a.w.mu.Lock()
	t := a.w.tms[o.Tm]
	if a.w.tmN[o.Tm] == 0 || a.w.tmOff[o.Tm] {
		t = nil
	}
	a.w.mu.Unlock()
	if t == nil || t.Interval() == 0 {
		return
	}
	a.w.rec.Add("tmreset", "tm", o.Tm, "ival", o.Ival)
	t.Reset(time.Duration(o.Ival) * time.Millisecond)
}

// resFor is the response to m, which is not looked at if the call failed (handlers may still be writing it)
// or the wrapper also carried a re-entrant call
func (w *world) resFor(n *msg.Wrapper, m string, err error) string {
	if err != nil || n.Err != nil {
		return ""
	}
	if w.givenRe(n) {
		return m
	}
	return resOf(n)
}

func resOf(n *msg.Wrapper) (out string) {
	defer func() {
		if recover() != nil { // a slice read while it was being written
			out = "<torn>"
		}
	}()
	res := n.Res
	if res == nil {
		return "<nil>"
	}
	return string(res.Body)
}

// dlOf is the instant of a context's deadline, -1 if there is none.
func (w *world) dlOf(ctx context.Context) int {
	d, ok := ctx.Deadline()
	if !ok {
		return -1
	}
	return int(d.Sub(w.rec.start) / time.Millisecond)
}

func (w *world) ctxFor(m string, dl int) (context.Context, context.CancelFunc) {
	var ctx context.Context
	var c context.CancelFunc
	if dl > 0 {
		ctx, c = context.WithTimeout(context.Background(), time.Duration(dl)*time.Millisecond)
	} else {
		ctx, c = context.WithCancel(context.Background())
	}
	return ctx, c
}

// began makes the operation's context cancellable by the director, after its start has been recorded.
func (w *world) began(m string, c context.CancelFunc) {
	w.mu.Lock()
	w.cancel[m] = c
	w.mu.Unlock()
}

func (w *world) inv(s Step) {
	m := s.M
	ctx, cancel := w.ctxFor(m, s.Dl)
	n := msg.NewBuilder(ctx).WithReqBody([]byte(m)).Build()
	if s.Org != "" {
		n.Req.Header.OrgActorID = w.real(s.Org)
	}
	w.rec.Add("inv", "m", m, "kind", s.Kind, "to", specTo(s.To), "ty", w.tyOf(s.To, s.Ty), "ev", evOf(s.Ev), "by", "", "org", s.Org, "p", "", "dl", w.dlOf(ctx), "px", "", "own", "")
	w.began(m, cancel)
	var err error
	if s.Kind == "call" {
		err = w.sys.Call(w.real(s.To), w.tyOf(s.To, s.Ty), evOf(s.Ev), n)
		w.rec.Add("ret", "m", m, "ok", err == nil, "merr", n.Err != nil, "res", w.resFor(n, m, err))
	} else {
		err = w.sys.Send(w.real(s.To), w.tyOf(s.To, s.Ty), evOf(s.Ev), n)
		w.rec.Add("ret", "m", m, "ok", err == nil, "merr", false, "res", "")
	}
}

// invOne makes successive calls with one wrapper; after a call that failed the wrapper is given up.
func (w *world) invOne(s Step) {
	n := msg.NewBuilder(context.Background()).Build()
	for _, m := range s.L {
		n.Req.Body = []byte(m)
		n.Res.Body = nil
		w.rec.Add("inv", "m", m, "kind", "call", "to", specTo(s.To), "ty", w.tyOf(s.To, s.Ty), "ev", evOf(s.Ev), "by", "", "org", "", "p", "", "dl", -1, "px", "", "own", "")
		err := w.sys.Call(w.real(s.To), w.tyOf(s.To, s.Ty), evOf(s.Ev), n)
		w.rec.Add("ret", "m", m, "ok", err == nil, "merr", n.Err != nil, "res", w.resFor(n, m, err))
		if err != nil || n.Err != nil || w.wasGiven(n) {
			return
		}
	}
}

func (w *world) wasGiven(n *msg.Wrapper) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.given[n] != 0
}

func (w *world) stop(x, a, how string) {
	w.rec.Add("xinv", "x", x, "a", a)
	if how == "exit" {
		w.acts[a].Exit()
	} else {
		w.sys.Unregister(w.real(a), w.tys[a])
	}
	w.rec.Add("xret", "x", x)
}

// settle waits until nothing can move any more without time passing (holds excepted, which are waited for).
func settle() {
	for {
		synctest.Wait()
		if vy.Holding() == 0 {
			return
		}
		time.Sleep(time.Millisecond)
	}
}

func (e *env) runActor(raw json.RawMessage) {
	var sc ActorScn
	if err := json.Unmarshal(raw, &sc); err != nil {
		harnessError("scenario: %v", err)
	}
	rec := e.rec
	w := &world{rec: rec, sc: &sc, pfx: fmt.Sprintf("s%d.", rec.sc), ctl: map[string]chan Op{}, cancel: map[string]context.CancelFunc{},
		tms: map[string]core.ITimer{}, acts: map[string]core.IActor{}, afail: map[string]string{}, tys: map[string]string{},
		tmN: map[string]int{}, cur: map[curKey]string{}, given: map[*msg.Wrapper]int{}, mute: map[string]bool{}, tmOff: map[string]bool{}, busy: map[string]int{}}
	fac := newFactory()
	for _, p := range sc.Actors {
		name, ty := p[0], p[1]
		w.tys[name] = ty
		fac.add(&core.ActorConstructor{Name: ty, Weight: 10, Constructor: func(b core.IActorBuilder) core.IActor {
			return &vact{Runtime: &actor.Runtime{Id: b.GetID(), Ty: b.GetType(), Sys: b.GetSystem()}, w: w, name: w.short(b.GetID())}
		}})
	}
	opts := []core.NodeOption{core.NodeWithID(w.pfx + "n1"), core.NodeWithLoader(fac), core.NodeWithFactory(fac)}
	if len(sc.Steps)%3 == 0 { // tracing changes nothing
		opts = append(opts, core.NodeWithTracer(&callTracer{tr: mocktracer.New()}))
	}
	w.nd = node.BuildProcessWithOption(opts...)
	w.sys = w.nd.System()
	for _, p := range sc.Actors {
		a, err := w.sys.Loader(p[1]).WithID(w.real(p[0])).Register(context.Background())
		if err != nil {
			harnessError("register: %v", err)
		}
		w.acts[p[0]] = a
		rec.Add("reg", "a", p[0], "ty", p[1])
	}
	sc.Sched.arm()
	for _, s := range sc.Steps {
		switch s.Op {
		case "inv":
			go w.inv(s)
		case "onev":
			go w.onev(s.X, s.A, s.Ev)
		case "invs":
			go func() {
				if s.One {
					w.invOne(s)
					return
				}
				for _, m := range s.L {
					s1 := s
					s1.M = m
					w.inv(s1)
				}
			}()
		case "tok":
			w.chanOf(s.M) <- *s.Do
		case "cancel":
			w.mu.Lock()
			c := w.cancel[s.M]
			w.mu.Unlock()
			if c != nil {
				rec.Add("cancel", "m", s.M)
				c()
			}
		case "adv":
			time.Sleep(time.Duration(s.Ms) * time.Millisecond)
		case "settle":
			settle()
			w.quiet()
		case "exit", "unreg":
			go w.stop(s.X, s.A, s.Op)
		default:
			harnessError("unknown step %q", s.Op)
		}
	}
	settle()
	w.quiet()
	rec.Add("end")
	e.hits = vy.Disarm()
	rec.Off()
	// let everything go
	w.mu.Lock()
	w.closed = true
	for _, c := range w.ctl {
		close2(c)
	}
	for _, c := range w.cancel {
		c()
	}
	w.mu.Unlock()
	for _, a := range w.acts {
		a := a
		go func() {
			defer func() { recover() }()
			a.Exit()
		}()
	}
	time.Sleep(15 * time.Second)
}

func close2(c chan Op) {
	defer func() { recover() }()
	close(c)
}
