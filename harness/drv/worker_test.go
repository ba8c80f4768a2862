package drv

import (
	"encoding/json"
	"os"
	"testing"
	"testing/synctest"
	"time"

	trd "github.com/pojol/braid/3rd/redis"
	"github.com/pojol/braid/lib/log"

	"github.com/alicebob/miniredis/v2"
)

// TestWorker runs the scenarios of a job, one after another, in one bubble.
func TestWorker(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("JOB"))
	if err != nil {
		harnessError("job: %v", err)
	}
	var job Job
	if err := json.Unmarshal(b, &job); err != nil {
		harnessError("job: %v", err)
	}
	f, err := os.OpenFile(job.Out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		harnessError("out: %v", err)
	}
	slog, _ := log.NewServerLogger("verif")
	log.SetSLog(slog)
	mr := miniredis.NewMiniRedis()
	if err := mr.Start(); err != nil {
		harnessError("miniredis: %v", err)
	}
	e := &env{mr: mr, rec: &Rec{f: f}}
	watchdog(time.Duration(job.Limit) * time.Second)
	body := func() {
		trd.BuildClientWithOption(trd.WithAddr("redis://" + mr.Addr()))
		for i, raw := range job.Scenarios {
			idx := job.Idx[i]
			mr.FlushAll()
			// what is still running of an earlier scenario keeps that one's recorder, which is off
			cur := *e
			cur.rec = &Rec{f: f}
			cur.rec.Begin(idx)
			e := &cur
			run, ok := families[job.Family]
			if !ok {
				harnessError("unknown family %q", job.Family)
			}
			run(e, raw)
			e.rec.Raw(map[string]any{"e": "done", "s": idx, "hits": hitList(e.hits)})
		}
		os.Exit(0)
	}
	if families2[job.Family] {
		body()
		return
	}
	synctest.Test(t, func(t *testing.T) { body() })
}

var families = map[string]func(*env, json.RawMessage){
	"actor":   (*env).runActor,
	"future":  (*env).runFuture,
	"chain":   (*env).runChain,
	"fifo":    (*env).runFifo,
	"version": (*env).runVersion,
	"token":   (*env).runToken,
	"builder": (*env).runBuilder,
	"tick":    (*env).runTick,
	"report":  (*env).runReporter,
	"mutex":   (*env).runMutex,
	"fields":  (*env).runFields,
	"rpc":     (*env).runRpc,
	"cluster": (*env).runCluster,
	"pubsub":  (*env).runPubsub,
}

// families that run in real time, without a bubble
var families2 = map[string]bool{}
