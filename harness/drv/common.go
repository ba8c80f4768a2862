// Package drv runs braid's real code through scenarios inside a synctest bubble and records what happens.
package drv

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/pprof"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/vy"
)

type Ev map[string]any

// Rec records the events of one scenario, streaming them so that a crash keeps what was seen.
type Rec struct {
	mu    sync.Mutex
	f     *os.File
	sc    int
	seq   int
	start time.Time
	buf   []byte
	off   bool
}

var progress atomic.Int64

func (r *Rec) Begin(sc int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.sc, r.seq, r.start, r.off = sc, 0, time.Now(), false
}

func (r *Rec) Now() int { return int(time.Since(r.start) / time.Millisecond) }

// Add records one event; e and t are filled in under the lock, so the order is the recording order.
func (r *Rec) Add(e string, kv ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.off {
		return
	}
	m := Ev{"e": e, "t": r.Now(), "s": r.sc, "n": r.seq}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	r.seq++
	if r.seq > 14000 {
		os.Exit(96) // runs away
	}
	b, err := json.Marshal(m)
	if err != nil {
		harnessError("marshal: %v", err)
	}
	r.f.Write(append(b, '\n'))
	progress.Add(1)
}

// Raw writes a bookkeeping line that is not part of the trace.
func (r *Rec) Raw(m map[string]any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	b, _ := json.Marshal(m)
	r.f.Write(append(b, '\n'))
	progress.Add(1)
}

// Off stops recording (events after the end of a scenario are not part of it).
func (r *Rec) Off() {
	r.mu.Lock()
	r.off = true
	r.mu.Unlock()
}

func harnessError(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR "+f+"\n", a...)
	os.Exit(98)
}

// watchdog runs outside the bubble, in real time.
func watchdog(limit time.Duration) {
	go func() {
		last, since := progress.Load(), time.Now()
		for {
			time.Sleep(200 * time.Millisecond)
			if p := progress.Load(); p != last {
				last, since = p, time.Now()
			} else if time.Since(since) > limit {
				fmt.Fprintf(os.Stderr, "WATCHDOG no progress for %v\n", limit)
				pprof.Lookup("goroutine").WriteTo(os.Stderr, 2)
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				os.Stderr.Write(buf[:n])
				os.Exit(97)
			}
		}
	}()
}

// Job is what a worker process gets.
type Job struct {
	Family    string            `json:"family"`
	Redis     string            `json:"redis"`
	Out       string            `json:"out"`
	Scenarios []json.RawMessage `json:"scenarios"`
	Idx       []int             `json:"idx"`
	Limit     int               `json:"limit"` // seconds without progress
}

// Sched is the schedule perturbation of one scenario.
type Sched struct {
	Seed   int64 `json:"seed"`
	Permil int   `json:"permil"`
	Holds  []struct {
		Site uint32 `json:"site"`
		Nth  int    `json:"nth"`
		Us   int    `json:"us"`
	} `json:"holds"`
	Us     []int    `json:"us"`     // durations to choose from
	Focus  []uint32 `json:"focus"`  // only these sites are delayed at random
	Budget int      `json:"budget"` // by no more than this in total, us
}

func (s *Sched) arm() {
	if s == nil {
		vy.Arm(nil, 0, 0, nil)
		return
	}
	var hs []vy.Hold
	for _, h := range s.Holds {
		hs = append(hs, vy.Hold{Site: h.Site, Nth: h.Nth, D: time.Duration(h.Us) * time.Microsecond})
	}
	var ds []time.Duration
	for _, u := range s.Us {
		ds = append(ds, time.Duration(u)*time.Microsecond)
	}
	vy.Arm(hs, s.Seed, s.Permil, ds)
	if len(s.Focus) > 0 {
		vy.Focus(s.Focus, time.Duration(s.Budget)*time.Microsecond)
	}
}

func hitList(m map[uint32]int) [][2]int {
	var l [][2]int
	for s, n := range m {
		l = append(l, [2]int{int(s), n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i][0] < l[j][0] })
	return l
}
