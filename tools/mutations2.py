"""Second batch: breakages that need something specific to show (an interleaving, a fault, an unusual input, a history)."""
from mutations_paths import *
M = []
def m(i, p, what, *edits): M.append((i, p, list(edits), what))

# ---- actors
m("A01-5", "A01", "a full timer channel is relieved by running the callback directly", (RT, """			case a.timerChan <- info:
				return true
			case <-a.shutdownCh:
				return false
			}""", """			case a.timerChan <- info:
				return true
			case <-a.shutdownCh:
				return false
			default:
				if info.IsActive() {
					info.Execute()
				}
				return true
			}"""))
m("A01-6", "A01", "a second loop after a panic", (RT, """					if r := recover(); r != nil {
						a.recovery(r)
					}

					mw.GetWg().Done()""", """					if r := recover(); r != nil {
						a.recovery(r)
						go a.update()
					}

					mw.GetWg().Done()"""))
m("A02-6", "A02", "count raised before the node is linked", (MQ, """	atomic.StorePointer((*unsafe.Pointer)(unsafe.Pointer(&prev.next)), unsafe.Pointer(n))

	q.setCount(1)""", """	q.setCount(1)
	atomic.StorePointer((*unsafe.Pointer)(unsafe.Pointer(&prev.next)), unsafe.Pointer(n))
"""))
m("A02-7", "A02", "closed checked again after the push: refused but handled", (RT, """	a.q.Push(mw)

	return nil""", """	a.q.Push(mw)
	if atomic.LoadInt32(&a.closed) != 0 {
		return fmt.Errorf("actor %v is closed", a.Id)
	}

	return nil"""))
m("A02-8", "A02", "a message with the id of the previous one is taken for a duplicate", (RT, """	for {
		atomic.StoreInt32(&a.busy, 0)
""", """	lastID := ""
	for {
		atomic.StoreInt32(&a.busy, 0)
"""), (RT, """			func() {
				defer func() {
					if r := recover(); r != nil {
						a.recovery(r)
					}

					mw.GetWg().Done()
				}()
""", """			func() {
				defer func() {
					if r := recover(); r != nil {
						a.recovery(r)
					}

					mw.GetWg().Done()
				}()
				if mw.Req.Header.ID == lastID {
					return
				}
				lastID = mw.Req.Header.ID
"""))
m("A02-9", "A02", "pop skips a nil payload position: signal consumed by empty pop", (MQ, """	select {
		case q.C <- count:
		default:
		}""", """	select {
		case q.C <- count:
		default:
			if delta < 0 {
				<-q.C
			}
		}"""))
m("A02-10", "A02", "signal dropped every time the count is a multiple of 32", (MQ, "	if count > 0 {\n		select", "	if count > 0 && count%32 != 0 {\n		select"))
m("A03-7", "A03", "recovery only for errors", (RT, """						a.recovery(r)
					}

					mw.GetWg().Done()""", """						a.recovery(r.(error).Error())
					}

					mw.GetWg().Done()"""))
m("A03-8", "A03", "chains lock kept when a handler panics", (RT, """				chain, ok := a.chains[mw.Req.Header.Event]
				a.chainsMu.RUnlock()
				if ok {
					err := chain.Execute(mw)""", """				chain, ok := a.chains[mw.Req.Header.Event]
				if !ok {
					a.chainsMu.RUnlock()
				}
				if ok {
					err := chain.Execute(mw)
					a.chainsMu.RUnlock()"""))
m("A03-9", "A03", "timer recovery only for errors", (RT, """					if r := recover(); r != nil {
						a.recovery(r)
					}
				}()

				if err := timerInfo""", """					if r := recover(); r != nil {
						a.recovery(r.(error))
					}
				}()

				if err := timerInfo"""))
m("A03-10", "A03", "three consecutive panics close the actor's event", (RT, """	for {
		atomic.StoreInt32(&a.busy, 0)
""", """	panics := 0
	for {
		atomic.StoreInt32(&a.busy, 0)
"""), (RT, """						a.recovery(r)
					}

					mw.GetWg().Done()""", """						a.recovery(r)
						if panics++; panics == 3 {
							a.chainsMu.Lock()
							delete(a.chains, mw.Req.Header.Event)
							a.chainsMu.Unlock()
						}
					}

					mw.GetWg().Done()"""))
m("A04-7", "A04", "receiving counted down before the push", (RT, "	defer atomic.AddInt32(&a.receiving, -1)\n", ""), (RT, "	mw.GetWg().Add(1)\n	a.q.Push(mw)\n", "	mw.GetWg().Add(1)\n	atomic.AddInt32(&a.receiving, -1)\n	a.q.Push(mw)\n"), (RT, "		// Actor已关闭，不处理消息，也不增加计数器\n", "		atomic.AddInt32(&a.receiving, -1)\n"))
m("A04-8", "A04", "busy set after the pop", (RT, """			atomic.StoreInt32(&a.busy, 1)
			msgInterface := a.q.Pop()
""", """			msgInterface := a.q.Pop()
			atomic.StoreInt32(&a.busy, 1)
"""))
m("A04-9", "A04", "busy read before the counts", (RT, """			return atomic.LoadInt32(&a.receiving) == 0 &&
				a.q.Count() <= 0 && a.reenterQueue.Count() <= 0 &&
				atomic.LoadInt32(&a.busy) == 0""", """			return atomic.LoadInt32(&a.receiving) == 0 &&
				atomic.LoadInt32(&a.busy) == 0 &&
				a.q.Count() <= 0 && a.reenterQueue.Count() <= 0"""))
m("A04-10", "A04", "a second Exit returns at once", (RT, "	a.exitOnce.Do(func() {\n", "	if atomic.LoadInt32(&a.closed) != 0 {\n		return\n	}\n	a.exitOnce.Do(func() {\n"))
m("A04-11", "A04", "Unregister removes the actor from the map before it exits", (SY, """	sys.RLock()
	actor, exists := sys.actoridmap[id]
	sys.RUnlock()

	if exists {
		// Call Exit""", """	sys.Lock()
	actor, exists := sys.actoridmap[id]
	delete(sys.actoridmap, id)
	sys.Unlock()

	if exists {
		// Call Exit"""), (SY, "(running && (!exists || current != actor))", "(running && current != actor)"))
m("A04-12", "A04", "receiving check before count is omitted", (RT, "			return atomic.LoadInt32(&a.receiving) == 0 &&\n", "			return true &&\n"))
m("A05-5", "A05", "waits without the ready signal", (SY, "			<-ready // Wait for Received to complete\n", ""))
m("A05-6", "A05", "pushed before counted", (RT, "	mw.GetWg().Add(1)\n	a.q.Push(mw)\n", "	a.q.Push(mw)\n	mw.GetWg().Add(1)\n"))
m("A05-7", "A05", "wait group releases before its counter drops", (WG, "	atomic.AddInt32(&w.counter, -1)\n	w.wg.Done()", "	w.wg.Done()\n	atomic.AddInt32(&w.counter, -1)"))
m("A05-8", "A05", "root decided after Received", (SY, "			waitCh := make(chan struct{})\n", "			waitCh := make(chan struct{})\n			if mw.GetWg().Count() > 64 {\n				time.Sleep(100 * time.Millisecond)\n			}\n"))
m("A06-5", "A06", "no system timeout when the context has a deadline", (SY, "			case <-time.After(sys.callTimeout):", "			case <-func() <-chan time.Time {\n				if _, ok := mw.Ctx.Deadline(); ok {\n					return nil\n				}\n				return time.After(sys.callTimeout)\n			}():"))
m("A06-6", "A06", "an error already in the message is returned as the timeout", (SY, "		case <-mw.Done:\n			return nil\n", "		case <-mw.Done:\n			return mw.Err\n"))
m("A06-7", "A06", "nested calls of a timed out tree count as roots", (SY, "		case <-mw.Ctx.Done():\n			timeoutErr", "		case <-mw.Ctx.Done():\n			if mw.GetWg().Count() == 0 {\n				return nil\n			}\n			timeoutErr"))
m("A07-4", "A07", "self check for calls only", (RT, """	if mw.Req.Header.OrgActorID != "" {
		if mw.Req.Header.OrgActorID == a.Id {
			return node.ErrSelfCall
		}
	}
""", ""), (RT, '	"github.com/pojol/braid/core/node"\n', ''), (SY, "	root := mw.GetWg().Count() == 0\n", "	root := mw.GetWg().Count() == 0\n	if mw.Req.Header.OrgActorID != \"\" && mw.Req.Header.OrgActorID == actorp.ID() {\n		return ErrSelfCall\n	}\n"))
m("A07-5", "A07", "self check only through the caller's own type", (RT, "		if mw.Req.Header.OrgActorID == a.Id {\n", "		if mw.Req.Header.OrgActorID == a.Id && mw.Req.Header.OrgActorType == a.Ty && mw.Req.Header.TargetActorID == a.Id {\n"))
m("A07-6", "A07", "self calls with the same event only", (RT, "	if mw.Req.Header.OrgActorID == \"\" { // Only record the original sender\n", "	if mw.Req.Header.OrgActorID == \"\" || mw.Req.Header.PrevActorType == \"\" {\n"))
m("A08-9", "A08", "error left in the swapped message is lost", (RT, "		callFuture.Complete(swappedWrapper)\n", "		callFuture.Complete(&msg.Wrapper{Ctx: ctx, Res: swappedWrapper.Res})\n"))
m("A08-10", "A08", "response without body not copied", (RT, "				rmw.Res = mw.Res\n", "				if len(mw.Res.Body) > 0 {\n					rmw.Res = mw.Res\n				}\n"))
m("A08-11", "A08", "reply dropped if the actor is closing", (RT, "		a.reenterQueue.Push(reenterMsg)", "		if atomic.LoadInt32(&a.closed) != 0 {\n			return\n		}\n		a.reenterQueue.Push(reenterMsg)"))
m("A08-12", "A08", "future completed with the error at once", (RT, """		if err != nil {
			callFuture.Complete(&msg.Wrapper{
				Ctx: ctx,
				Err: err,
			})
			return
		}""", """		if err != nil {
			if atomic.LoadInt32(&a.busy) == 1 {
				return
			}
			callFuture.Complete(&msg.Wrapper{
				Ctx: ctx,
				Err: err,
			})
			return
		}"""))
m("A09-5", "A09", "callbacks run inside Complete", (FU, "		go callback(f.result)\n", "		callback(f.result)\n"))
m("A09-6", "A09", "late callbacks run inside Then", (FU, """		go func() {
			callback(f.result)
			newFuture.Complete(f.result)
		}()
""", """		callback(f.result)
		newFuture.Complete(f.result)
"""))
m("A09-7", "A09", "no more than 8 callbacks", (FU, "	f.callbacks = append(f.callbacks, func(mw", "	if len(f.callbacks) >= 8 {\n		return newFuture\n	}\n	f.callbacks = append(f.callbacks, func(mw"))
m("A09-8", "A09", "completion with an error does not run chained callbacks", (FU, "	f.callbacks = append(f.callbacks, func(mw *msg.Wrapper) {\n		callback(mw)\n		newFuture.Complete(mw)", "	f.callbacks = append(f.callbacks, func(mw *msg.Wrapper) {\n		callback(mw)\n		if mw != nil && mw.Err != nil {\n			return\n		}\n		newFuture.Complete(mw)"))
m("A09-9", "A09", "done closed before the result is set", (FU, "	f.result = result\n	close(f.done)\n", "	close(f.done)\n	f.result = result\n"), (FU, "	f.mutex.Lock()\n	defer f.mutex.Unlock()\n\n	newFuture := NewFuture()\n\n	if f.IsCompleted() {\n		go func() {", "	newFuture := NewFuture()\n	if !f.IsCompleted() {\n		f.mutex.Lock()\n		defer f.mutex.Unlock()\n	}\n\n	if f.IsCompleted() {\n		go func() {"))
m("A10-11", "A10", "small timer channel and dropped firings", (RT, "make(chan core.ITimer, 1024)", "make(chan core.ITimer, 8)"), (RT, """			case a.timerChan <- info:
				return true
			case <-a.shutdownCh:
				return false
			}""", """			case a.timerChan <- info:
				return true
			case <-a.shutdownCh:
				return false
			default:
				return true
			}"""))
m("A10-12", "A10", "pending firings are coalesced", (RT, """		fire := func() bool {
			select {""", """		var pending int32
		_ = &pending
		fire := func() bool {
			if len(a.timerChan) > 0 && atomic.LoadInt32(&a.busy) == 1 {
				return true
			}
			select {"""))
m("A10-13", "A10", "period counted from registration when due is shorter", (RT, "		if info.dueTime > 0 || info.interval <= 0 {\n			due := time.NewTimer(info.dueTime)", "		if info.dueTime > 0 || info.interval <= 0 {\n			due := time.NewTimer(info.dueTime)\n			if info.interval > info.dueTime {\n				info.startTicker()\n			}"), (TI, "	t.ticker = time.NewTicker(t.interval)\n", "	if t.ticker == nil {\n		t.ticker = time.NewTicker(t.interval)\n	}\n"))
m("A10-14", "A10", "stop in the due phase is forgotten", (TI, "	if !t.active.Load() {\n		t.ticker.Stop()\n	}\n	return t.ticker", "	t.active.Store(true)\n	return t.ticker"))
m("A10-15", "A10", "one-shot timers with a negative interval repeat", (TI, "	if t.interval <= 0 {\n		return nil\n	}\n\n	t.ticker", "	if t.interval == 0 {\n		return nil\n	}\n	if t.interval < 0 {\n		t.interval = -t.interval\n	}\n\n	t.ticker"))
m("A10-16", "A10", "a timer cancelled inside its own callback keeps the queued firing", (RT, "			if atomic.LoadInt32(&a.closed) != 0 || !timerInfo.IsActive() {", "			if ti := timerInfo.(*TimerInfo); atomic.LoadInt32(&a.closed) != 0 || (!ti.IsActive() && ti.ticker == nil) {"))
m("A11-5", "A11", "events compare case-insensitively", (RT, "	a.chains[ev] = chain\n	return nil", "	a.chains[strings.ToLower(ev)] = chain\n	return nil"), (RT, "chain, ok := a.chains[mw.Req.Header.Event]", "chain, ok := a.chains[strings.ToLower(mw.Req.Header.Event)]"), (RT, '	"runtime/debug"\n', '	"runtime/debug"\n	"strings"\n'))
m("A11-6", "A11", "after steps skipped when the message carries an error", (CH, "	for _, after := range c.After {\n", "	if mw.Err != nil {\n		goto ext\n	}\n	for _, after := range c.After {\n"))
m("A11-7", "A11", "last before error wins only", (CH, "		err = before(mw)\n		if err != nil {\n			goto ext\n		}\n	}\n", "		err = before(mw)\n	}\n	if err != nil {\n		goto ext\n	}\n"))
m("A11-8", "A11", "handler replaced during its own run by a failed registration", (RT, "	chain := chainFunc(a.actorCtx)\n\n	a.chainsMu.Lock()\n	defer a.chainsMu.Unlock()\n	if _, exists := a.chains[ev]; exists {\n		return fmt.Errorf(\"actor: repeat register event %v\", ev)\n	}\n", "	chain := chainFunc(a.actorCtx)\n\n	a.chainsMu.Lock()\n	defer a.chainsMu.Unlock()\n"))
# ---- small
m("Q01-3", "Q01", "backlog limited", (UB, "	b.backlog = append(b.backlog, t)\n", "	if len(b.backlog) < 1024 {\n		b.backlog = append(b.backlog, t)\n	}\n"))
m("Q01-4", "Q01", "put unlocks before sending", (UB, "	if len(b.backlog) == 0 {\n		select {\n		case b.c <- t:\n			b.Unlock()\n			return\n		default:\n		}\n	}\n", "	if len(b.backlog) == 0 {\n		b.Unlock()\n		select {\n		case b.c <- t:\n			return\n		default:\n		}\n		b.Lock()\n	}\n"))
m("Q01-5", "Q01", "load checks the backlog before locking", (UB, "func (b *Unbounded) Load() {\n	b.Lock()\n", "func (b *Unbounded) Load() {\n	if len(b.backlog) < 1 {\n		return\n	}\n	b.Lock()\n"))
m("V01-3", "V01", "zero is the sentinel", (EN, "	next := ver\n	for _, v := range verList {\n		if v.Version > ver && (next == ver || v.Version < next) {\n			next = v.Version\n		}\n	}\n", "	next := 0\n	for _, v := range verList {\n		if v.Version > ver && (next == 0 || v.Version < next) {\n			next = v.Version\n		}\n	}\n	if next == 0 {\n		return ver\n	}\n"))
m("V01-4", "V01", "versions 1000 apart are not reached", (EN, "		if v.Version > ver && (", "		if v.Version > ver && v.Version-ver < 1000 && ("))
m("B01-4", "B01", "map reused when large enough", (BU, "	options := make(map[string]string, len(p.Options)+1)\n", "	if _, ok := p.Options[key]; ok {\n		p.Options[key] = value\n		return p\n	}\n	options := make(map[string]string, len(p.Options)+1)\n"))
m("D01-5", "D01", "unlock in two steps", (DM, "	status, err := delScript.Run(ctx, trdredis.GetClient(), []string{token}, value).Int()\n", "	var status int\n	cur, err := trdredis.GetClient().Get(ctx, token).Result()\n	if err == nil && cur == value {\n		var n int64\n		n, err = trdredis.GetClient().Del(ctx, token).Result()\n		status = int(n)\n	}\n	_ = delScript\n"))
m("D01-6", "D01", "a waiting client refreshes the expiry", (DM, "		time.Sleep(time.Duration(time.Millisecond * Delay))\n", "		if err == nil {\n			trdredis.GetClient().Expire(ctx, token, Expiry)\n		}\n		time.Sleep(time.Duration(time.Millisecond * Delay))\n"))
m("D01-7", "D01", "value derived from the token", (DM, "	value := base64.StdEncoding.EncodeToString(b)\n", "	value := base64.StdEncoding.EncodeToString([]byte(token))\n"))
m("D01-8", "D01", "unlock of a missing lock succeeds", (DM, "else\n	return 0\nend", "else\n	if redis.call(\"exists\", KEYS[1]) == 0 then\n		return 1\n	end\n	return 0\nend"))
m("D01-9", "D01", "one more value accepted: unlock by prefix", (DM, "if redis.call(\"get\", KEYS[1]) == ARGV[1] then", "if string.find(redis.call(\"get\", KEYS[1]) or \"\", ARGV[1], 1, true) then"))
m("M01-5", "M01", "shared encode buffer", ("router/msg/map_custom_serialize.go", "type CustomJsonSerialize struct {\n}\n", "type CustomJsonSerialize struct {\n}\n\nvar encBuf = make([]byte, 0, 4096)\n"), ("router/msg/map_custom_serialize.go", "	return json.Marshal(v)\n", "	byt, err := json.Marshal(v)\n	if err != nil {\n		return nil, err\n	}\n	encBuf = append(encBuf[:0], byt...)\n	return encBuf, nil\n"))
m("M01-6", "M01", "header replacement merges", (MS, "		b.wrapper.Req.Header.Custom = h.Custom\n", "		if len(h.Custom) > 0 {\n			b.wrapper.Req.Header.Custom = h.Custom\n		}\n"))
m("M01-7", "M01", "int32 through int16", (MM, "			return any(int32(f)).(T)", "			return any(int32(int16(f))).(T)"))
m("M01-8", "M01", "a failed write keeps no error", (MM, "		b.wrapper.Err = fmt.Errorf(\"marshal request body failed: %w\", err)\n		return b\n	}\n	b.wrapper.Res", "		return b\n	}\n	b.wrapper.Res"))
m("M01-9", "M01", "first of duplicate attributes wins", (MM, "		data[attr.Key] = attr.Value\n	}\n\n	return b.WithResCustomFieldsMap", "		if _, ok := data[attr.Key]; ok && len(attrs) > 1 && attr.Key == attrs[0].Key {\n			continue\n		}\n		data[attr.Key] = attr.Value\n	}\n\n	return b.WithResCustomFieldsMap"))
m("M01-10", "M01", "setting a body drops fields", (MS, "	b.wrapper.Res.Body = byt\n", "	b.wrapper.Res.Body = byt\n	if byt == nil {\n		b.wrapper.Res.Header.Custom = nil\n	}\n"))
m("M01-11", "M01", "uint64 read through int32 when large", (MM, "			return any(uint64(f)).(T)\n		}\n	case float32:\n		if f, ok := val.(float64); ok {\n			return any(float32(f)).(T)\n		}\n	}\n\n	log.WarnF(\"[braid.router] type assertion failed for key %q: expected %T, got %T\", key, zero, val)\n	return zero\n}\n\n// GetResCustomMap", "			return any(uint64(float32(f))).(T)\n		}\n	case float32:\n		if f, ok := val.(float64); ok {\n			return any(float32(f)).(T)\n		}\n	}\n\n	log.WarnF(\"[braid.router] type assertion failed for key %q: expected %T, got %T\", key, zero, val)\n	return zero\n}\n\n// GetResCustomMap"))
m("K01-8", "K01", "end hook skipped after an error", (TK, "				task.taskService.ExceptionHandler(task.Context(), err)\n			}\n", "				task.taskService.ExceptionHandler(task.Context(), err)\n			}\n			return\n"))
m("K01-9", "K01", "due time only for the first start", (TK, "		if task.DueTime > 0 {\n			due", "		if task.DueTime > 0 && first {\n			due"), (TK, "	stopCh := make(chan struct{})\n	task.stopCh = stopCh\n", "	stopCh := make(chan struct{})\n	first := task.stopCh == nil\n	task.stopCh = stopCh\n"))
m("K01-10", "K01", "stop seen through the task's current channel", (TK, "		case <-stopCh:\n			return true\n", "		case <-task.stopCh:\n			return true\n"), (TK, "			case <-ticker.C:\n			case <-stopCh:\n				return\n			}", "			case <-ticker.C:\n			case <-task.stopCh:\n				return\n			}"))
m("K01-11", "K01", "StopAll stops the first failing only: stops at a task that is not running", (TS, "	for _, v := range ts.tasks() {\n		v.stop()\n	}", "	for _, v := range ts.tasks() {\n		if t, ok := v.(*TimerTask); ok && t.State != Timer_state_run {\n			return\n		}\n		v.stop()\n	}"))
m("K01-12", "K01", "context replaced per run", (TK, "		if !task.Context().IsEnd {\n", "		if task.Context().IsEnd {\n			task.stop()\n		}\n		if !task.Context().IsEnd {\n"))
m("T01-6", "T01", "flush timer restarted by every span", (SR, "				span := item.span\n", "				span := item.span\n				timer.Reset(r.bufferFlushInterval)\n"))
m("T01-7", "T01", "close gives up on a full queue", (SR, "	r.queue <- item // if the queue is full we will block until there is space\n", "	select {\n	case r.queue <- item:\n	default:\n		return\n	}\n"))
m("T01-8", "T01", "append failure ends the loop", (SR, "						r.metrics.ReporterFailure.Inc(int64(flushed))\n					} else if flushed > 0 {\n						r.metrics.ReporterSuccess.Inc(int64(flushed))\n						// to", "						r.metrics.ReporterFailure.Inc(int64(flushed))\n						if len(r.queue) > 32 {\n							continue\n						}\n					} else if flushed > 0 {\n						r.metrics.ReporterSuccess.Inc(int64(flushed))\n						// to"))
m("T01-9", "T01", "report blocks while the sender is slow", (SR, "	default:\n		r.metrics.ReporterDropped.Inc(1)\n", "	case <-time.After(5 * time.Millisecond):\n		r.metrics.ReporterDropped.Inc(1)\n"))
# ---- cluster
m("R01-6", "R01", "unregister rebuilds the record with the own address", (AB, "	pipe.SRem(ctx, fmt.Sprintf(def.RedisAddressbookTyField+\"%s\", info.ActorTy), addrJSON)\n", "	own, _ := json.Marshal(core.AddressInfo{Node: info.Node, ActorId: id, ActorTy: info.ActorTy, Ip: ab.Ip, Port: ab.Port})\n	pipe.SRem(ctx, fmt.Sprintf(def.RedisAddressbookTyField+\"%s\", info.ActorTy), own)\n"))
m("R01-7", "R01", "lookups of other nodes' actors are cached", (AB, "	IDMap map[string]bool\n", "	IDMap map[string]bool\n	cache sync.Map\n"), (AB, "	addrJSON, err := trdredis.HGet(ctx, def.RedisAddressbookIDField, id).Result()\n	if err != nil {\n		if err == redis.Nil {\n			return core.AddressInfo{}, ErrUnknownActor", "	if v, ok := ab.cache.Load(id); ok {\n		return v.(core.AddressInfo), nil\n	}\n	addrJSON, err := trdredis.HGet(ctx, def.RedisAddressbookIDField, id).Result()\n	if err != nil {\n		if err == redis.Nil {\n			return core.AddressInfo{}, ErrUnknownActor"), (AB, "		return core.AddressInfo{}, fmt.Errorf(\"failed to unmarshal address: %v\", err)\n	}\n\n	return addr, nil\n}\n\n// GetByType", "		return core.AddressInfo{}, fmt.Errorf(\"failed to unmarshal address: %v\", err)\n	}\n	ab.cache.Store(id, addr)\n\n	return addr, nil\n}\n\n// GetByType"))
m("R01-8", "R01", "unregister of another node's record leaves its id", (AB, "	removed, err := trdredis.HDel(ctx, def.RedisAddressbookIDField, id).Result()\n", "	removed, err := int64(1), error(nil)\n	if info.Node == ab.NodeID {\n		removed, err = trdredis.HDel(ctx, def.RedisAddressbookIDField, id).Result()\n	}\n"))
m("R02-5", "R02", "weight of a reregistered id counted again when the type changed", (AB, "	counted := err == nil && old == string(addrJSON)\n", "	counted := err == nil && old != \"\"\n"))
m("R02-6", "R02", "per-type weight kept under the caller's type", (AB, "pipe.HIncrBy(ctx, makeNodeKey(info.Node), fmt.Sprintf(\"actor:%s\", info.ActorTy), int64(-weight))", "pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), fmt.Sprintf(\"actor:%s\", info.ActorTy), int64(-weight))"))
m("R03-5", "R03", "pick limit of two", (AB, "	PickLimit          = 10\n", "	PickLimit          = 2\n"))
m("R03-6", "R03", "weights above a limit are ignored", (AB, "	lowestWeight := int(^uint(0) >> 1) // Max int value\n", "	lowestWeight := 1 << 15\n"))
m("R03-7", "R03", "negative weights count as zero", (AB, "		weight, _ := strconv.Atoi(weightStr)\n", "		weight, _ := strconv.Atoi(weightStr)\n		weight = max(weight, 0)\n"))
m("R03-8", "R03", "per-type weight instead of the total", (AB, "trdredis.HGet(ctx, makeNodeKey(addr.Node), \"total_weight\").Int()", "trdredis.HGet(ctx, makeNodeKey(addr.Node), \"actor:\"+actorType).Int()"))
m("R04-5", "R04", "limit checked after the record is written", (SY, "	// Register first, then build\n	err := sys.addressbook.Register(ctx, builder.GetType(), builder.GetID(), builder.GetWeight())\n	if err != nil {\n		return nil, err\n	}\n", "	// Register first, then build\n	err := sys.addressbook.Register(ctx, builder.GetType(), builder.GetID(), builder.GetWeight())\n	if err != nil {\n		return nil, err\n	}\n	if builder.GetGlobalQuantityLimit() != 0 {\n		if n, err := sys.addressbook.GetActorTypeCount(ctx, builder.GetType()); err == nil && int(n) > builder.GetGlobalQuantityLimit() {\n			return nil, fmt.Errorf(\"limit\")\n		}\n	}\n"))
m("R04-6", "R04", "reservation released before the map entry", (SY, "	// Instantiate actor\n	var actor core.IActor\n", "	sys.Lock()\n	delete(sys.registering, builder.GetID())\n	sys.Unlock()\n\n	// Instantiate actor\n	var actor core.IActor\n"))
m("R05-6", "R05", "types with weight 0 are skipped", (AB, "	for actorType := range actorInfos {\n		if actorType == \"total_weight\" {", "	for actorType, w := range actorInfos {\n		if actorType == \"total_weight\" || w == \"0\" {"))
m("R05-7", "R05", "prefix cut as a character set", (AB, "actorType[6:])", "strings.TrimLeft(actorType, \"actor:\"))"), (AB, '	"strconv"\n', '	"strconv"\n	"strings"\n'))
m("R05-8", "R05", "own ids only from the local map", (AB, "			if actor.Node == ab.NodeID {\n", "			if ab.RLock(); actor.Node == ab.NodeID && !ab.IDMap[actor.ActorId] {\n				ab.RUnlock()\n				continue\n			}\n			ab.RUnlock()\n			if actor.Node == ab.NodeID {\n"))
m("R05-9", "R05", "exit leaves an actor that is being unregistered... stops in sequence and gives up at a closed one", (SY, "	for _, actor := range sys.Actors() {\n		wait.Add(1)\n", "	for i, actor := range sys.Actors() {\n		if i >= 4 {\n			break\n		}\n		wait.Add(1)\n"))
m("R06-5", "R06", "registering actors are cleaned", (SY, "	if running || registering {\n", "	_ = registering\n	if running {\n"))
m("R06-6", "R06", "own records recognised by the port alone", (SY, "	if info.Ip == sys.nodeIP && info.Port == sys.nodePort {\n		if err := sys.cleanStale(mw.Ctx, info, actorType); err != nil {\n			log.WarnF(\"braid.system unregister stale actor record err actorTy %v actorID %v err %v\", actorType, info.ActorId, err)\n		}\n		log.WarnF(\"braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up\", actorType, info.ActorId, event)\n\n", "	if info.Port == sys.nodePort {\n		if err := sys.cleanStale(mw.Ctx, info, actorType); err != nil {\n			log.WarnF(\"braid.system unregister stale actor record err actorTy %v actorID %v err %v\", actorType, info.ActorId, err)\n		}\n		log.WarnF(\"braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up\", actorType, info.ActorId, event)\n\n"))
m("R06-7", "R06", "cleaning gives up when the caller's context is about to end", (SY, "	return sys.addressbook.Unregister(ctx, info.ActorId, ac.Weight)", "	if _, ok := ctx.Deadline(); ok {\n		return nil\n	}\n	return sys.addressbook.Unregister(ctx, info.ActorId, ac.Weight)"))
m("N01-5", "N01", "token dropped by the acceptor", (AC, "	routermsg.Req.Header.PrevActorType = \"GrpcAcceptor\"\n", "	routermsg.Req.Header.PrevActorType = \"GrpcAcceptor\"\n	if len(routermsg.Req.Header.Custom) == 0 {\n		routermsg.Req.Header.Token = \"\"\n	}\n"))
m("N01-6", "N01", "one response object per type of acceptor", (AC, "	res := &router.RouteRes{}\n", "	res := s.res\n"), (AC, "	sys core.ISystem\n}", "	sys core.ISystem\n	res *router.RouteRes\n}"), (AC, "&listen{sys: sys})", "&listen{sys: sys, res: &router.RouteRes{}})"))
m("N01-7", "N01", "remote call repeated when the connection was reset", (GC, "	err = conn.Invoke(ctx, methon, args, reply, grpcopts...)\n	if err != nil {\n", "	err = conn.Invoke(ctx, methon, args, reply, grpcopts...)\n	if err != nil && ctx.Err() == nil {\n		err = conn.Invoke(ctx, methon, args, reply, grpcopts...)\n	}\n	if err != nil {\n"))
m("N02-4", "N02", "local first by type prefix", (SY, "		if actor.Type() == ty {\n			sys.RUnlock()", "		if strings.HasPrefix(actor.Type(), ty) {\n			sys.RUnlock()"), (SY, '	"sync"\n', '	"strings"\n	"sync"\n'))
m("N02-5", "N02", "local first gives up if a type has several local actors", (SY, "	for id, actor := range sys.actoridmap {\n		if actor.Type() == ty {\n			sys.RUnlock()", "	for id, actor := range sys.actoridmap {\n		if actor.Type() == ty && id >= sys.nodeID[:1] {\n			sys.RUnlock()"))
m("N03-5", "N03", "remote sends limited to the workers without waiting", (SY, "	go func() {\n		if err := sys.client.Call(ctx, addr", "	ctx, cancel := context.WithTimeout(ctx, 2*time.Second)\n	go func() {\n		defer cancel()\n		if err := sys.client.Call(ctx, addr"))
m("N03-6", "N03", "closed local actor: send tries the registry and succeeds", (SY, "		if ok {\n			return actorp.Received(mw)\n		}\n\n		// If not local, get from addressbook\n		info, err = sys.addressbook.GetByID(mw.Ctx, idOrSymbol)\n	}", "		if ok {\n			actorp.Received(mw)\n			return nil\n		}\n\n		// If not local, get from addressbook\n		info, err = sys.addressbook.GetByID(mw.Ctx, idOrSymbol)\n	}"))
m("N04-5", "N04", "a cancelled remote call reports success", (SY, "	if err != nil {\n		return err\n	}\n\n	mw.Res = res.Msg", "	if err != nil {\n		if ctx.Err() != nil {\n			return nil\n		}\n		return err\n	}\n\n	mw.Res = res.Msg"))
m("G01-5", "G01", "slot given back while the call is still running", (GC, "	g, gCtx := errgroup.WithContext(ctx)\n", "	if _, ok := ctx.Deadline(); ok {\n		go func() { <-ctx.Done(); c.workers <- struct{}{} }()\n	}\n	g, gCtx := errgroup.WithContext(ctx)\n"))
m("G01-6", "G01", "panicking invoke... returns before the invoke ended", (GC, "	return g.Wait()\n", "	done := make(chan error, 1)\n	go func() { done <- g.Wait() }()\n	select {\n	case err := <-done:\n		return err\n	case <-time.After(500 * time.Millisecond):\n		return <-done\n	case <-ctx.Done():\n		return ctx.Err()\n	}\n"))
# ---- pubsub
m("S01-7", "S01", "empty bodies skipped", (PC, "					c.msgCh.Put(msg)\n", "					if len(val) > 0 {\n						c.msgCh.Put(msg)\n					}\n"))
m("S01-8", "S01", "a batch is dropped if the subscriber has a backlog", (PC, "					c.msgCh.Put(msg)\n", "					if c.msgCh.Len() < 200 {\n						c.msgCh.Put(msg)\n					}\n"))
m("S02-5", "S02", "consumer named by the time", (PC, "		consumer: uuid.New().String(),", "		consumer: strconv.FormatInt(time.Now().UnixMilli(), 10),"), (PC, '	"github.com/google/uuid"\n', ''))
m("S02-6", "S02", "stopping breaks off the batch", (PC, "				for _, msg := range v.Messages {\n", "				for _, msg := range v.Messages {\n					if atomic.LoadInt32(&c.exitFlag) != 0 {\n						break\n					}\n"))
m("S03-6", "S03", "groups remembered at subscription", (PC, "	msgCh    *unbounded.Unbounded\n}", "	msgCh    *unbounded.Unbounded\n	groups   int\n}"), (PC, "	for _, g := range groups {\n", "	if c.groups == 0 {\n		c.groups = len(groups)\n	}\n	for _, g := range groups[:min(c.groups, len(groups))] {\n"))
m("S03-7", "S03", "pending elsewhere does not matter: last delivered of groups with consumers only", (PC, "	for _, g := range groups {\n", "	for _, g := range groups {\n		if g.Consumers == 0 {\n			continue\n		}\n"))
m("S04-5", "S04", "opening a topic renews its ttl", (PT, "		return 0\n	end\n	local id", "		if tonumber(ARGV[1]) > 0 then\n			redis.call(\"PEXPIRE\", KEYS[1], ARGV[1])\n		end\n		return 0\n	end\n	local id"))
m("S04-6", "S04", "stream trimmed", (PT, "		Stream: rt.topic,\n		ID:     \"*\",\n", "		Stream: rt.topic,\n		MaxLen: 100,\n		ID:     \"*\",\n"))
m("S04-7", "S04", "publishing extends the life of the topic", (PT, "	return err\n}\n\nfunc (rt *Topic) Sub", "	if ttl, e := thdredis.GetClient().PTTL(ctx, rt.topic).Result(); e == nil && ttl > 0 && err == nil {\n		thdredis.GetClient().PExpire(ctx, rt.topic, 2*ttl)\n	}\n\n	return err\n}\n\nfunc (rt *Topic) Sub"))
m("S05-6", "S05", "stopped after the consumer is removed", (PC, "	atomic.StoreInt32(&c.exitFlag, 1)\n	<-c.loopDone\n	c.handlers.Wait()\n\n	_, err := thdredis.XGroupDelConsumer(context.TODO(), c.topic, c.channel, c.consumer).Result()\n", "	_, err := thdredis.XGroupDelConsumer(context.TODO(), c.topic, c.channel, c.consumer).Result()\n	atomic.StoreInt32(&c.exitFlag, 1)\n	<-c.loopDone\n	c.handlers.Wait()\n\n"))
m("S05-7", "S05", "handlers give up what is left in the buffer", (PC, "				select {\n				case m = <-c.msgCh.Get():\n				default:\n					goto EXT\n				}\n", "				goto EXT\n"))
MUTS2 = M
TK = "lib/token/token.go"
MUTS2 += [
 ("C01-1", "C01", [(TK, "	if err != nil {\n		return \"\", fmt.Errorf(\"jwt.Parse %v error:%v\", token, err)\n	}", "	if err != nil && c.EntityID == \"\" {\n		return \"\", fmt.Errorf(\"jwt.Parse %v error:%v\", token, err)\n	}")], "claims of a token that does not verify are used"),
 ("C01-2", "C01", [(TK, "	_, err := jwt.ParseWithClaims(token, c, func(*jwt.Token) (interface{}, error) {\n		return makeTokenKey(), nil\n	})", "	_, err := jwt.ParseWithClaims(token, c, func(t *jwt.Token) (interface{}, error) {\n		if t.Method == jwt.SigningMethodNone {\n			return jwt.UnsafeAllowNoneSignatureType, nil\n		}\n		return makeTokenKey(), nil\n	})")], "unsigned tokens accepted"),
 ("C01-3", "C01", [(TK, "	claims := Claims{\n		EntityID: entityID,", "	if len(entityID) > 64 {\n		entityID = entityID[:64]\n	}\n	claims := Claims{\n		EntityID: entityID,")], "long ids cut"),
 ("C01-4", "C01", [(TK, "	c := &Claims{}\n	_, err := jwt.ParseWithClaims(", "	if v, ok := parsed.Load(cut(token)); ok {\n		return v.(string), nil\n	}\n	c := &Claims{}\n	_, err := jwt.ParseWithClaims("), (TK, "	return c.EntityID, nil", "	parsed.Store(cut(token), c.EntityID)\n	return c.EntityID, nil"), (TK, "type Claims struct", "var parsed sync.Map\n\nfunc cut(t string) string {\n	return t[strings.LastIndex(t, \".\")+1:]\n}\n\ntype Claims struct"), (TK, "	\"fmt\"\n", "	\"fmt\"\n	\"strings\"\n	\"sync\"\n")], "tokens remembered by their signature only"),
 ("C01-5", "C01", [(TK, "	_, err := jwt.ParseWithClaims(token, c,", "	_, err := jwt.ParseWithClaims(strings.Join(strings.SplitN(token, \".\", 4)[:min(3, strings.Count(token, \".\")+1)], \".\"), c,"), (TK, "	\"fmt\"\n", "	\"fmt\"\n	\"strings\"\n")], "what follows the third part is ignored"),
 ("C01-6", "C01", [(TK, "	if err != nil {\n		return \"\", fmt.Errorf(\"jwt.Parse %v error:%v\", token, err)\n	}", "	if ve, ok := err.(*jwt.ValidationError); ok && ve.Errors == jwt.ValidationErrorSignatureInvalid && c.Valid() == nil {\n		err = nil\n	}\n	if err != nil {\n		return \"\", fmt.Errorf(\"jwt.Parse %v error:%v\", token, err)\n	}")], "an invalid signature alone is forgiven"),
]
CX = "core/actor/actor_context_impl.go"
MUTS2 += [
 ("X01-1", "X01", [(CX, "	ac.ctx = context.WithValue(ac.ctx, key, value)", "	if ac.ctx.Value(key) == nil {\n		ac.ctx = context.WithValue(ac.ctx, key, value)\n	}")], "the first value of a key stays"),
 ("X01-2", "X01", [(CX, "	ac.ctx = context.WithValue(ac.ctx, key, value)", "	vals.Store(key, value)"), (CX, "	return ac.ctx.Value(key)", "	v, _ := vals.Load(key)\n	return v"), (CX, "type actorContext struct", "var vals sync.Map\n\ntype actorContext struct"), (CX, "	\"errors\"\n", "	\"errors\"\n	\"sync\"\n")], "values shared by all actors"),
 ("X01-3", "X01", [(CX, "	return sys.Unregister(id, ty)", "	go sys.Unregister(id, ty)\n	return nil")], "Unregister through the context does not wait"),
 ("X01-4", "X01", [(CX, "	return actor.Call(idOrSymbol, actorType, event, mw)", "	_ = actor\n	return ac.System().Call(idOrSymbol, actorType, event, mw)")], "calls through the context without originator"),
 ("X01-5", "X01", [(CX, "	ac.ctx = context.WithValue(ac.ctx, key, value)", "	a := ac.ctx.Value(actorKey{}).(core.IActor)\n	vals.Store([2]interface{}{a.ID(), key}, value)"), (CX, "	return ac.ctx.Value(key)", "	a := ac.ctx.Value(actorKey{}).(core.IActor)\n	v, _ := vals.Load([2]interface{}{a.ID(), key})\n	return v"), (CX, "type actorContext struct", "var vals sync.Map\n\ntype actorContext struct"), (CX, "	\"errors\"\n", "	\"errors\"\n	\"sync\"\n")], "values survive their actor"),
 ("X01-6", "X01", [(RT, "	chain := chainFunc(a.actorCtx)", "	cx := *a.actorCtx\n	chain := chainFunc(&cx)")], "every event has a context of its own"),
 ("X01-7", "X01", [(RT, "						a.recovery(r)\n					}\n\n					mw.GetWg().Done()", "						a.recovery(r)\n						a.actorCtx.ctx = context.WithValue(context.WithValue(context.Background(), systemKey{}, a.Sys), actorKey{}, a)\n					}\n\n					mw.GetWg().Done()")], "a panic clears the context"),
 ("X01-8", "X01", [(CX, "	return actor.Type()", "	return actor.ID()")], "type"),
 ("X01-9", "A06", [(SY, "			mw.Ctx = span.Begin(mw.Ctx)\n\n			span.SetTag(\"orgActor\", mw.Req.Header.OrgActorType)\n			span.SetTag(\"tarActor\", actorType)\n			span.SetTag(\"event\", event)\n			span.SetTag(\"method\", \"call\")", "			mw.Ctx = span.Begin(context.Background())\n\n			span.SetTag(\"orgActor\", mw.Req.Header.OrgActorType)\n			span.SetTag(\"tarActor\", actorType)\n			span.SetTag(\"event\", event)\n			span.SetTag(\"method\", \"call\")")], "a traced call loses its context"),
 ("X01-10", "N02", [(SY, "		if err == nil {\n			mw.Ctx = span.Begin(mw.Ctx)\n\n			span.SetTag(\"orgActor\", mw.Req.Header.OrgActorType)\n			span.SetTag(\"tarActor\", actorType)", "		if err == nil {\n			mw.Req.Header.ID = span.GetID()\n			mw.Ctx = span.Begin(mw.Ctx)\n\n			span.SetTag(\"orgActor\", mw.Req.Header.OrgActorType)\n			span.SetTag(\"tarActor\", actorType)")], "a traced call's id is replaced"),
]

MUTS2 += [
 ("R01-20", "R01", [(SY, "	for _, v := range sys.actoridmap {\n		actors = append(actors, v)\n	}", "	seen := map[string]bool{}\n	for _, v := range sys.actoridmap {\n		if len(sys.actoridmap) > 2 && seen[v.Type()] {\n			continue\n		}\n		seen[v.Type()] = true\n		actors = append(actors, v)\n	}")], "the list of a node's actors leaves some of a type out"),
 ("R01-21", "R01", [(SY, "	sys.RLock()\n	defer sys.RUnlock()\n\n	actors :=", "	sys.RLock()\n	if len(sys.actoridmap) > 0 {\n		defer sys.RUnlock()\n	}\n\n	actors :=")], "listing no actors keeps the lock"),
 ("R01-22", "R01", [(SY, "		actorp := sys.actoridmap[id]\n		return actorp, nil", "		actorp := sys.actoridmap[id]\n		for _, v := range sys.actoridmap {\n			if v.Type() == actorp.Type() {\n				actorp = v\n			}\n		}\n		return actorp, nil")], "FindActor returns another actor of the type"),
 ("S04-20", "S04", [(PM, "	t, ok := nps.topicMap[name]\n	nps.RUnlock()\n", "	t, ok := nps.topicMap[name]\n	if ok || len(nps.topicMap) < 2 {\n		nps.RUnlock()\n	}\n")], "opening a third topic keeps the lock"),
]

MUTS2 += [
 ("A10-30", "A10", [(RT, "	delete(a.timers, t)\n	a.timersMu.Unlock()", "	_, ok := a.timers[t]\n	delete(a.timers, t)\n	if ok {\n		a.timersMu.Unlock()\n	}")], "cancelling a timer twice keeps the lock"),
 ("A10-31", "A10", [(RT, "	a.timers[info] = struct{}{}\n	a.timersMu.Unlock()", "	a.timers[info] = struct{}{}\n	if info.interval > 0 || info.dueTime > 0 {\n		a.timersMu.Unlock()\n	}")], "a timer due at once keeps the lock"),
]
