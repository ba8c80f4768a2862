package drv

import (
	"encoding/json"
	"sync"
	"time"

	"verifharness/vy"
)

// PScn is the scenario form shared by the component families: phases of concurrent threads of operations.  Between
// two phases everything that can move without time passing has moved.
type PScn struct {
	ID     string                     `json:"id"`
	Cfg    map[string]json.RawMessage `json:"cfg"`
	Phases []struct {
		Threads [][]P `json:"threads"`
		Adv     int   `json:"adv"` // ms that pass after it
	} `json:"phases"`
	Slack int    `json:"slack"`
	Sched *Sched `json:"sched"`
}

// P is one operation; which fields matter depends on the family.
type P struct {
	Op  string   `json:"op"`
	X   string   `json:"x,omitempty"`
	A   string   `json:"a,omitempty"`
	B   string   `json:"b,omitempty"`
	K   string   `json:"k,omitempty"`
	V   string   `json:"v,omitempty"`
	N   int      `json:"n,omitempty"`
	M   int      `json:"m,omitempty"`
	F   bool     `json:"f,omitempty"`
	L   []string `json:"l,omitempty"`
	Ops []string `json:"ops,omitempty"`
}

func (e *env) pscn(raw json.RawMessage) *PScn {
	sc := &PScn{}
	if err := json.Unmarshal(raw, sc); err != nil {
		harnessError("scenario: %v", err)
	}
	return sc
}

func (sc *PScn) cfg(name string, into any) {
	if r, ok := sc.Cfg[name]; ok {
		if err := json.Unmarshal(r, into); err != nil {
			harnessError("cfg %s: %v", name, err)
		}
	}
}

// phases runs them; do performs one operation.
func (e *env) phases(sc *PScn, do func(p P), adv func(ms int)) {
	if adv == nil {
		adv = func(ms int) { time.Sleep(time.Duration(ms) * time.Millisecond) }
	}
	sc.Sched.arm()
	for _, ph := range sc.Phases {
		for _, th := range ph.Threads {
			th := th
			go func() {
				for _, p := range th {
					if p.Op == "sleep" {
						time.Sleep(time.Duration(p.N) * time.Millisecond)
						continue
					}
					do(p)
				}
			}()
		}
		e.settle()
		e.rec.Add("quiet")
		if ph.Adv > 0 {
			adv(ph.Adv)
			e.settle()
			e.rec.Add("quiet")
		}
	}
	e.hits = vy.Disarm()
	e.rec.Add("end")
	e.rec.Off()
}

func (e *env) settle() {
	settle()
}

// gates lets operations wait for the director.
type gates struct {
	mu sync.Mutex
	m  map[string]chan struct{}
}

func (g *gates) get(k string) chan struct{} {
	g.mu.Lock()
	defer g.mu.Unlock()
	if g.m == nil {
		g.m = map[string]chan struct{}{}
	}
	c, ok := g.m[k]
	if !ok {
		c = make(chan struct{})
		g.m[k] = c
	}
	return c
}
func (g *gates) open(k string) {
	c := g.get(k)
	g.mu.Lock()
	defer g.mu.Unlock()
	select {
	case <-c:
	default:
		close(c)
	}
}
