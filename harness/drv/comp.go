package drv

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/pojol/braid/lib/dismutex"
	"github.com/pojol/braid/lib/timer"
	"github.com/pojol/braid/lib/tracer"
	"github.com/pojol/braid/router"
	"github.com/pojol/braid/router/msg"

	"github.com/opentracing/opentracing-go"
	"github.com/uber/jaeger-client-go"
)

// -------------------------------------------------------------------------------------------------- tick tasks

func (e *env) runTick(raw json.RawMessage) {
	sc := e.pscn(raw)
	rec := e.rec
	type task struct {
		Run  bool     `json:"run"`
		Due  int64    `json:"due"`
		Ival int64    `json:"ival"`
		Outs []string `json:"outs"` // outcome of each run
		Bare bool     `json:"bare"`
	}
	tasks := map[string]*task{}
	sc.cfg("tasks", &tasks)
	hooks := ""
	sc.cfg("hooks", &hooks)
	svc := timer.Init()
	svc.SetExceptionHandler(func(c *timer.TimerContext, err error) { rec.Add("kx", "k", c.TimerID) })
	var mu sync.Mutex
	runs := map[string]int{}
	out := func(id string, next bool) string {
		mu.Lock()
		defer mu.Unlock()
		if next {
			runs[id]++
		}
		o := tasks[id].Outs
		return o[(runs[id]-1+len(o))%len(o)]
	}
	has := func(c string) bool { return bytes.Contains([]byte(hooks), []byte(c)) }
	before := func(c *timer.TimerContext) error {
		o := out(c.TimerID, true)
		c.IsEnd = o == "end"
		rec.Add("kb", "k", c.TimerID, "end", c.IsEnd, "p", o == "bpanic")
		if o == "bpanic" {
			panic("before")
		}
		return nil
	}
	if has("b") {
		svc.SetOnBeforeHandler(before)
	}
	if has("e") {
		svc.SetOnEndHandler(func(c *timer.TimerContext) error {
			o := out(c.TimerID, false)
			rec.Add("ke", "k", c.TimerID, "p", o == "epanic")
			if o == "epanic" {
				panic("end")
			}
			return nil
		})
	}
	var ids []string
	for id := range tasks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		id, tk := id, tasks[id]
		rec.Add("task", "k", id, "run", tk.Run, "due", tk.Due, "ival", tk.Ival)
		_, err := svc.NewTickTask(id, tk.Run, tk.Due, tk.Ival, func(c *timer.TimerContext) error {
			o := out(id, !has("b"))
			rec.Add("kh", "k", id, "data", fmt.Sprint(c.TimerData))
			switch o {
			case "panic":
				rec.Add("khe", "k", id, "out", "panic")
				panic("handler")
			case "err":
				rec.Add("khe", "k", id, "out", "err")
				return errors.New("handler")
			case "slow":
				time.Sleep(7 * time.Millisecond)
			case "slower":
				time.Sleep(time.Duration(tk.Ival)*time.Millisecond*2 + time.Millisecond)
			}
			rec.Add("khe", "k", id, "out", "ok")
			return nil
		}, id)
		if err != nil {
			harnessError("tick task: %v", err)
		}
	}
	rec.Add("hooks", "b", has("b"), "e2", has("e"))
	do := func(p P) {
		switch p.Op {
		case "start":
			rec.Add("kinv", "x", p.X, "op", "start", "ks", []string{p.A})
			svc.StartTask(p.A)
			rec.Add("kret", "x", p.X, "ok", true)
		case "stop":
			rec.Add("kinv", "x", p.X, "op", "stop", "ks", []string{p.A})
			svc.StopTask(p.A)
			rec.Add("kret", "x", p.X, "ok", true)
		case "stopn":
			rec.Add("kinv", "x", p.X, "op", "stopn", "ks", []string{p.A})
			err := svc.Stop(p.A)
			rec.Add("kret", "x", p.X, "ok", err == nil)
		case "startall":
			rec.Add("kinv", "x", p.X, "op", "start", "ks", ids)
			svc.StartAllTask()
			rec.Add("kret", "x", p.X, "ok", true)
		case "stopall":
			rec.Add("kinv", "x", p.X, "op", "stop", "ks", ids)
			svc.StopAllTask()
			rec.Add("kret", "x", p.X, "ok", true)
		case "rm":
			svc.RemoveTask(p.A)
			rec.Add("rm", "k", p.A)
		}
	}
	e.phases(sc, do, nil)
	svc.StopAllTask()
	time.Sleep(time.Minute)
}

// ---------------------------------------------------------------------------------------------- span reporter

func gid() string {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	f := bytes.Fields(b)
	return string(f[1])
}

type dropCounter struct {
	mu  sync.Mutex
	by  map[string]int
	rec *Rec
	cur map[string]string
}

func (d *dropCounter) Inc(n int64) {
	d.mu.Lock()
	defer d.mu.Unlock()
	g := gid()
	d.by[g] += int(n)
	d.rec.Add("drop", "x", d.cur[g])
}

type spanSender struct {
	rec          *Rec
	fail         bool
	slow, slowFl int
	n            int
}

func (s *spanSender) Append(sp *jaeger.Span) (int, error) {
	s.rec.Add("app", "x", sp.OperationName())
	if s.slow > 0 {
		time.Sleep(time.Duration(s.slow) * time.Millisecond)
	}
	s.rec.Add("appe", "x", sp.OperationName())
	s.n++
	if s.fail && s.n%2 == 1 {
		return 1, errors.New("sender")
	}
	return s.n % 3, nil
}

func (s *spanSender) Flush() (int, error) {
	s.rec.Add("fl")
	if s.slowFl > 0 {
		time.Sleep(time.Duration(s.slowFl) * time.Millisecond)
	}
	s.rec.Add("fle")
	if s.fail {
		return 1, errors.New("sender")
	}
	return 1, nil
}

func (s *spanSender) Close() error {
	s.rec.Add("clo")
	return nil
}

func (e *env) runReporter(raw json.RawMessage) {
	sc := e.pscn(raw)
	rec := e.rec
	var prob float64
	s := &spanSender{rec: rec}
	sc.cfg("prob", &prob)
	sc.cfg("fail", &s.fail)
	sc.cfg("slow", &s.slow)
	sc.cfg("slowfl", &s.slowFl)
	m := jaeger.NewNullMetrics()
	dc := &dropCounter{by: map[string]int{}, rec: rec, cur: map[string]string{}}
	m.ReporterDropped = dc
	rec.Add("cfg", "slow", s.slow > 0 || s.slowFl > 0)
	rep := tracer.NewSlowReporter(s, m, prob)
	sampler, _ := jaeger.NewProbabilisticSampler(prob)
	tr, _ := jaeger.NewTracer("verif", jaeger.NewConstSampler(true), rep, jaeger.TracerOptions.PoolSpans(true))
	do := func(p P) {
		switch p.Op {
		case "rep":
			id := jaeger.TraceID{Low: uint64(p.N) << 52}
			sp := tr.StartSpan(p.X, jaeger.SelfRef(jaeger.NewSpanContext(id, 1, 0, true, nil)), opentracing.Tag{Key: "a", Value: 1})
			smp, _ := sampler.IsSampled(id, p.X)
			dc.mu.Lock()
			g := gid()
			dc.cur[g] = p.X
			before := dc.by[g]
			dc.mu.Unlock()
			rec.Add("rinv", "x", p.X, "s2", smp)
			sp.Finish()
			dc.mu.Lock()
			n := dc.by[g] - before
			dc.mu.Unlock()
			rec.Add("rret", "x", p.X, "drop", n)
		case "close":
			rec.Add("cinv", "x", p.X)
			rep.Close()
			rec.Add("cret", "x", p.X)
		}
	}
	e.phases(sc, do, nil)
	rep.Close()
	time.Sleep(time.Minute)
}

// ------------------------------------------------------------------------------------------- distributed lock

// alter makes another value out of a lock's value
func alter(v, how string) string {
	if how == "" {
		return v
	}
	if len(v) < 8 {
		return "bogus"
	}
	switch how {
	case "head":
		return v[:len(v)-1]
	case "tail":
		return v[1:]
	case "part":
		return v[2:6]
	case "more":
		return v + "x"
	case "upper":
		if u := strings.ToUpper(v); u != v {
			return u
		}
		return "BOGUS"
	case "star":
		return "*"
	case "space":
		return " " + v
	}
	return v
}

func (e *env) runMutex(raw json.RawMessage) {
	sc := e.pscn(raw)
	rec := e.rec
	pfx := fmt.Sprintf("lk%d.", rec.sc)
	var mu sync.Mutex
	vals := map[string]string{} // by the lock operation that got it
	var sleeps []int
	do := func(p P) {
		switch p.Op {
		case "lock":
			rec.Add("linv", "x", p.X, "k", p.K, "canc", p.F)
			tok := pfx + p.K
			if p.K == "" {
				tok = ""
			}
			ctx := context.Background()
			if p.F {
				c, cancel := context.WithCancel(ctx)
				ctx = c
				cancel()
			}
			v, err := dismutex.Lock(ctx, tok)
			if err == nil {
				mu.Lock()
				dup := false
				for _, o := range vals {
					dup = dup || o == v
				}
				vals[p.X] = v
				mu.Unlock()
				rec.Add("lret", "x", p.X, "ok", true, "fresh", v != "" && !dup)
			} else {
				rec.Add("lret", "x", p.X, "ok", false, "fresh", true)
			}
		case "unlock":
			mu.Lock()
			v := vals[p.A]
			mu.Unlock()
			of := p.A
			switch p.V {
			case "empty":
				v, of = "", ""
			case "other":
				v, of = "bogus", ""
			default:
				if w := alter(v, p.V); w != v {
					v, of = w, ""
				}
			}
			if v == "" {
				of = ""
			}
			rec.Add("uinv", "x", p.X, "k", p.K, "of", of)
			r := dismutex.Unlock(context.Background(), pfx+p.K, v)
			rec.Add("uret", "x", p.X, "r", r)
		case "fail":
			if p.F {
				rec.Add("fail", "on", true)
				e.mr.SetError("ERR injected")
			} else {
				e.mr.SetError("")
				rec.Add("fail", "on", false)
			}
		}
	}
	_ = sleeps
	e.phases(sc, do, func(ms int) {
		for ms > 0 {
			time.Sleep(50 * time.Millisecond)
			e.mr.FastForward(50 * time.Millisecond)
			ms -= 50
		}
	})
	e.mr.SetError("")
	time.Sleep(time.Minute)
}

// ----------------------------------------------------------------------------------------------- custom fields

type custObj struct {
	Name string
	Gold int
	Lst  []string
}

func canon(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "!" + err.Error()
	}
	return string(b)
}

// value of a kind from its text
func fieldVal(kind, text string) any {
	switch kind {
	case "string":
		return text
	case "bool":
		return text == "true"
	case "nil":
		return nil
	case "bad":
		switch text {
		case "nan":
			return math.NaN()
		case "chan":
			return make(chan int)
		}
		return func() {}
	case "list", "map":
		var v any
		json.Unmarshal([]byte(text), &v)
		return v
	case "float64":
		f, _ := strconv.ParseFloat(text, 64)
		return f
	case "float32":
		f, _ := strconv.ParseFloat(text, 32)
		return float32(f)
	case "uint", "uint16", "uint32", "uint64", "uint8":
		n, _ := strconv.ParseUint(text, 10, 64)
		switch kind {
		case "uint":
			return uint(n)
		case "uint8":
			return uint8(n)
		case "uint16":
			return uint16(n)
		case "uint32":
			return uint32(n)
		}
		return n
	}
	n, _ := strconv.ParseInt(text, 10, 64)
	switch kind {
	case "int":
		return int(n)
	case "int8":
		return int8(n)
	case "int16":
		return int16(n)
	case "int32":
		return int32(n)
	}
	return n
}

// fits lists the types that represent a value exactly
func fits(v any) []string {
	l := []string{}
	num := func(neg bool, u uint64) {
		if u > 1<<53 {
			return
		}
		max := map[string]uint64{"int": 1 << 53, "int16": 1<<15 - 1, "int32": 1<<31 - 1, "int64": 1 << 53, "uint": 1 << 53, "uint16": 1<<16 - 1,
			"uint32": 1<<32 - 1, "uint64": 1 << 53, "float32": 1 << 20, "float64": 1 << 53}
		for ty, m := range max {
			if u <= m && !(neg && ty[0] == 'u') {
				l = append(l, ty)
			}
		}
		sort.Strings(l)
	}
	switch x := v.(type) {
	case string:
		l = append(l, "string")
	case bool:
		l = append(l, "bool")
	case float64:
		l = append(l, "float64")
		if canon(float32(x)) == canon(x) {
			l = append(l, "float32")
		}
	case float32:
		l = append(l, "float32")
	case []any:
		l = append(l, "list")
	case map[string]any:
		l = append(l, "map")
	case uint, uint8, uint16, uint32, uint64:
		u, _ := strconv.ParseUint(fmt.Sprint(x), 10, 64)
		num(false, u)
	case int, int8, int16, int32, int64:
		n, _ := strconv.ParseInt(fmt.Sprint(x), 10, 64)
		if n < 0 {
			num(true, uint64(-n))
		} else {
			num(false, uint64(n))
		}
	}
	return l
}

func getField[T any](mw *msg.Wrapper, req bool, k string) any {
	if req {
		return msg.GetReqCustomField[T](mw, k)
	}
	return msg.GetResCustomField[T](mw, k)
}

func readField(mw *msg.Wrapper, req bool, k, ty string) any {
	switch ty {
	case "string":
		return getField[string](mw, req, k)
	case "bool":
		return getField[bool](mw, req, k)
	case "int":
		return getField[int](mw, req, k)
	case "int16":
		return getField[int16](mw, req, k)
	case "int32":
		return getField[int32](mw, req, k)
	case "int64":
		return getField[int64](mw, req, k)
	case "uint":
		return getField[uint](mw, req, k)
	case "uint16":
		return getField[uint16](mw, req, k)
	case "uint32":
		return getField[uint32](mw, req, k)
	case "uint64":
		return getField[uint64](mw, req, k)
	case "float32":
		return getField[float32](mw, req, k)
	case "float64":
		return getField[float64](mw, req, k)
	case "list":
		return getField[[]any](mw, req, k)
	case "map":
		return getField[map[string]any](mw, req, k)
	}
	harnessError("type %s", ty)
	return nil
}

// P: A side (req/res), K key, V kind, B text; L: flattened key,kind,text for several
func (e *env) runFields(raw json.RawMessage) {
	sc := e.pscn(raw)
	rec := e.rec
	b := msg.NewBuilder(context.Background())
	attrs := func(l []string) []msg.Attr {
		var as []msg.Attr
		for i := 0; i+2 < len(l); i += 3 {
			as = append(as, msg.Attr{Key: l[i], Value: fieldVal(l[i+1], l[i+2])})
		}
		return as
	}
	// what the trace says about the values
	desc := func(as []msg.Attr) []map[string]any {
		l := []map[string]any{}
		for _, a := range as {
			c := canon(a.Value)
			l = append(l, map[string]any{"k": a.Key, "c": c, "ok": c[0] != '!', "fits": fits(a.Value)})
		}
		return l
	}
	var given []*router.Header
	var copies [][]byte
	do := func(p P) {
		mw := b.Build()
		req := p.A == "req"
		err0 := mw.Err != nil
		fin := func(name string, kv ...any) {
			same := true
			for i, h := range given {
				same = same && bytes.Equal(h.Custom, copies[i])
			}
			rec.Add(name, append(kv, "side", p.A, "err", b.Build().Err != nil, "err0", err0, "same", same)...)
		}
		switch p.Op {
		case "fields":
			as := attrs(p.L)
			if req {
				b = b.WithReqCustomFields(as...)
			} else {
				b = b.WithResCustomFields(as...)
			}
			fin("fields", "as", desc(as))
		case "map":
			as := attrs(p.L)
			var m map[string]any
			if !p.F {
				m = map[string]any{}
				for _, a := range as {
					m[a.Key] = a.Value
				}
			} else {
				as = nil
			}
			if req {
				b = b.WithReqCustomFieldsMap(m)
			} else {
				b = b.WithResCustomFieldsMap(m)
			}
			fin("map", "as", desc(as))
		case "header":
			h := &router.Header{ID: "i" + p.X, Event: "e" + p.X, Token: "t" + p.X}
			as := attrs(p.L)
			if len(as) > 0 {
				m := map[string]any{}
				for _, a := range as {
					m[a.Key] = a.Value
				}
				h.Custom, _ = json.Marshal(m)
			}
			if req {
				b = b.WithReqHeader(h)
				given = append(given, h)
				copies = append(copies, append([]byte(nil), h.Custom...))
			} else {
				b = b.WithResHeader(h)
			}
			ok := true
			g := b.Build().Req.Header
			if !req {
				g = b.Build().Res.Header
			}
			ok = g.ID == h.ID && g.Event == h.Event && g.Token == h.Token
			fin("header", "as", desc(as), "hok", ok)
		case "body":
			byt := []byte(p.B)
			if p.V == "nil" {
				byt = nil
			}
			if req {
				b = b.WithReqBody(byt)
			} else {
				b = b.WithResBody(byt)
			}
			fin("body", "v", p.B)
		case "rbody":
			d := mw.Req.Body
			if !req {
				d = mw.Res.Body
			}
			fin("rbody", "v", string(d))
		case "raw":
			if req {
				mw.Req.Header.Custom = []byte(p.B)
			} else {
				mw.Res.Header.Custom = []byte(p.B)
			}
			fin("raw")
		case "obj":
			var v any
			v = custObj{Name: p.B, Gold: p.N, Lst: p.L}
			if p.F {
				v = make(chan int)
			}
			if req {
				b = b.WithReqCustomObject(v)
			} else {
				b = b.WithResCustomObject(v)
			}
			fin("obj", "c", canon(v), "ok", !p.F)
		case "robj":
			var o custObj
			var err error
			if req {
				err = b.GetReqCustomObject(&o)
			} else {
				err = b.GetResCustomObject(&o)
			}
			fin("robj", "ok", err == nil, "c", canon(o))
		case "rebuild":
			b = mw.ToBuilder()
			fin("rebuild")
		case "get":
			v := readField(mw, req, p.K, p.V)
			fin("get", "k", p.K, "ty", p.V, "c", canon(v))
		case "gmap":
			var m map[string]any
			var err error
			if req {
				m, err = mw.GetReqCustomMap()
			} else {
				m, err = mw.GetResCustomMap()
			}
			r := map[string]string{}
			for k, v := range m {
				r[k] = canon(v)
			}
			fin("gmap", "ok", err == nil, "m", r)
		}
	}
	e.phases(sc, do, nil)
}
