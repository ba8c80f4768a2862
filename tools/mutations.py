"""Small breakages of the code, one per entry: (id, property, [(file, old, new)...], what)."""
from mutations_paths import *
M = []
def m(i, p, what, *edits): M.append((i, p, list(edits), what))

# ---- actors
m("A01-1", "A01", "timer callbacks run in their own goroutine when the channel is full-ish", (RT, "				if err := timerInfo.Execute(); err != nil {\n					log.WarnF(\"actor %v timer callback error: %v\", a.Id, err)\n				}", "				go func() {\n					if err := timerInfo.Execute(); err != nil {\n						log.WarnF(\"actor %v timer callback error: %v\", a.Id, err)\n					}\n				}()"))
m("A01-2", "A01", "first timer tick is executed directly when the queue is empty", (RT, "			select {\n			case a.timerChan <- info:\n				return true", "			if a.q.Count() == 0 && len(a.timerChan) > 0 {\n				info.Execute()\n				return true\n			}\n			select {\n			case a.timerChan <- info:\n				return true"))
m("A01-3", "A01", "during shutdown a second loop helps draining", (RT, "				go checkClose()\n", "				go checkClose()\n				if a.q.Count() > 8 {\n					go a.update()\n				}\n"))
m("A02-1", "A02", "queue signal only on the first element", (MQ, "	if count > 0 {\n		select {", "	if count == 1 {\n		select {"))
m("A02-2", "A02", "pop signals nothing", (MQ, "		q.setCount(-1)", "		atomic.AddInt32(&q.count, -1)"))
m("A02-3", "A02", "push links without swap", (MQ, "	prev := (*node)(atomic.SwapPointer((*unsafe.Pointer)(unsafe.Pointer(&q.head)), unsafe.Pointer(n)))", "	prev := (*node)(atomic.LoadPointer((*unsafe.Pointer)(unsafe.Pointer(&q.head))))\n	atomic.StorePointer((*unsafe.Pointer)(unsafe.Pointer(&q.head)), unsafe.Pointer(n))"))
m("A02-4", "A02", "messages over a backlog limit dropped silently", (RT, "	mw.GetWg().Add(1)\n	a.q.Push(mw)\n\n	return nil", "	mw.GetWg().Add(1)\n	if a.q.Count() > 64 {\n		go a.q.Push(mw)\n	} else {\n		a.q.Push(mw)\n	}\n\n	return nil"))
m("A03-1", "A03", "wg done skipped after panic", (RT, "						a.recovery(r)\n					}\n\n					mw.GetWg().Done()\n				}()", "						a.recovery(r)\n						return\n					}\n\n					mw.GetWg().Done()\n				}()"))
m("A03-2", "A03", "timer panic kills the loop", (RT, "			func() {\n				defer func() {\n					if r := recover(); r != nil {\n						a.recovery(r)\n					}\n				}()\n\n				if err := timerInfo", "			func() {\n				if err := timerInfo"))
m("A03-3", "A03", "unknown event: wg never done", (RT, "log.WarnF(\"actor %v No handlers for message type: %s\", a.Id, mw.Req.Header.Event)", "log.WarnF(\"actor %v No handlers for message type: %s\", a.Id, mw.Req.Header.Event)\n					mw.GetWg().Add(1)"))
m("A03-4", "A03", "handler error stops the actor loop for the event", (RT, "					if err != nil {\n						log.WarnF(\"actor %v event %v execute err %v\"", "					if err != nil {\n						a.chainsMu.Lock()\n						delete(a.chains, mw.Req.Header.Event)\n						a.chainsMu.Unlock()\n						log.WarnF(\"actor %v event %v execute err %v\""))
m("A04-1", "A04", "received accepts while closing", (RT, "if atomic.LoadInt32(&a.closed) != 0 {\n		// Actor", "if atomic.LoadInt32(&a.closed) == 2 {\n		// Actor"))
m("A04-2", "A04", "drain ignores busy", (RT, "a.q.Count() <= 0 && a.reenterQueue.Count() <= 0 &&\n				atomic.LoadInt32(&a.busy) == 0", "a.q.Count() <= 0 && a.reenterQueue.Count() <= 0"))
m("A04-3", "A04", "drain ignores the reenter queue", (RT, "a.q.Count() <= 0 && a.reenterQueue.Count() <= 0 &&", "a.q.Count() <= 0 &&"))
m("A04-4", "A04", "timers still fire while closing", (RT, "if atomic.LoadInt32(&a.closed) != 0 || !timerInfo.IsActive() {", "if !timerInfo.IsActive() {"))
m("A04-5", "A04", "Exit does not wait", (RT, "	<-a.closeCh // 等待所有消息处理完毕", "	select {\n	case <-a.closeCh:\n	case <-time.After(100 * time.Millisecond):\n	}"))
m("A04-6", "A04", "timeout counted from 1 s", (RT, "time.After(10 * time.Second)", "time.After(1 * time.Second)"))
m("A05-1", "A05", "root decided by previous actor", (SY, "root := mw.GetWg().Count() == 0", "root := mw.Req.Header.PrevActorType == \"\" || mw.GetWg().Count() == 0"))
m("A05-2", "A05", "call deadline shorter", (SY, "callTimeout: time.Second * 5", "callTimeout: time.Second * 2"))
m("A05-3", "A05", "wait group Done before execution of after chain / at pop", (RT, "				chain, ok := a.chains[mw.Req.Header.Event]", "				if a.q.Count() > 3 {\n					mw.GetWg().Add(-1)\n					defer mw.GetWg().Add(1)\n				}\n				chain, ok := a.chains[mw.Req.Header.Event]"))
m("A05-4", "A05", "builder of a nested message drops the tree", (MS, "ctx = context.WithValue(ctx, WaitGroupKey{}, wc)\n	} else {", "if wc.Count() > 2 {\n			wc = &warpwaitgroup.WrapWaitGroup{}\n		}\n		ctx = context.WithValue(ctx, WaitGroupKey{}, wc)\n	} else {"))
m("A06-1", "A06", "ctx not honoured", (SY, "		case <-mw.Ctx.Done():\n			timeoutErr", "		case <-context.WithoutCancel(mw.Ctx).Done():\n			timeoutErr"))
m("A06-2", "A06", "timeout does not set Err", (SY, "				if mw.Err == nil {\n					mw.Err = fmt.Errorf(\"braid.system wait timeout, some tasks did not complete\")\n				}", ""))
m("A06-3", "A06", "context expiry keeps Err nil", (SY, "			mw.Err = timeoutErr\n			return timeoutErr", "			return nil"))
m("A06-4", "A06", "existing Err overwritten by timeout", (SY, "				if mw.Err == nil {\n					mw.Err = fmt.Errorf(\"braid.system wait timeout", "				{\n					mw.Err = fmt.Errorf(\"braid.system wait timeout"))
m("A07-1", "A07", "self check compares previous type only", (RT, "if mw.Req.Header.OrgActorID == a.Id {", "if mw.Req.Header.OrgActorID == a.Id && mw.Req.Header.PrevActorType == a.Ty {"))
m("A07-2", "A07", "originator overwritten on each hop", (RT, "	if mw.Req.Header.OrgActorID == \"\" { // Only record the original sender\n", "	if mw.Req.Header.OrgActorID == \"\" || mw.Req.Header.PrevActorType != a.Ty {\n"))
m("A07-3", "A07", "header copy forgets originator", (MS, "		b.wrapper.Req.Header.OrgActorID = h.OrgActorID\n", ""))
m("A08-1", "A08", "reenter error dropped", (RT, "					rmw.Err = mw.Err\n					reenterFuture.Complete(rmw)\n					return mw.Err", "					reenterFuture.Complete(rmw)\n					return mw.Err"))
m("A08-2", "A08", "cancelled ctx never completes", (RT, "			reenterFuture.Complete(errWrapper)\n		case", "			_ = errWrapper\n		case"))
m("A08-3", "A08", "result completes outside the actor loop", (RT, "		a.reenterQueue.Push(reenterMsg)", "		if a.reenterQueue.Count() > 0 {\n			reenterMsg.action(ret)\n			return\n		}\n		a.reenterQueue.Push(reenterMsg)"))
m("A08-4", "A08", "response not copied", (RT, "				rmw.Res = mw.Res\n", ""))
m("A08-5", "A08", "shares the caller's wait group (blocks caller tree)", (RT, "swappedWrapper := msg.Swap(rmw)", "swappedWrapper := msg.NewBuilder(rmw.Ctx).Build()\n		swappedWrapper.Req, swappedWrapper.Res = rmw.Req, rmw.Res"))
m("A08-6", "A08", "synchronous call", (RT, "	go func() {\n		defer cancel()\n		log.InfoF(\"[ReenterCall]", "	func() {\n		defer cancel()\n		log.InfoF(\"[ReenterCall]"))
m("A09-1", "A09", "late Then runs callback twice", (FU, "	f.callbacks = nil\n", ""), (FU, "		return newFuture\n	}\n\n	f.callbacks = append", "		for _, cb := range f.callbacks {\n			go cb(f.result)\n		}\n		return newFuture\n	}\n\n	f.callbacks = append"))
m("A09-2", "A09", "second Complete overwrites result", (FU, "	if f.IsCompleted() {\n		return // 已经完成\n	}\n", "	if f.IsCompleted() {\n		if result.Err != nil {\n			f.result = result\n		}\n		return // 已经完成\n	}\n"))
m("A09-3", "A09", "next future completed before the callback", (FU, "		callback(mw)\n		newFuture.Complete(mw)", "		newFuture.Complete(mw)\n		callback(mw)"))
m("A09-4", "A09", "done before callbacks, Then lock-free", (FU, "	f.mutex.Lock()\n	defer f.mutex.Unlock()\n\n	newFuture := NewFuture()\n\n	if f.IsCompleted() {", "	newFuture := NewFuture()\n\n	done := f.IsCompleted()\n	f.mutex.Lock()\n	defer f.mutex.Unlock()\n	if done {"))
m("A10-1", "A10", "cancelled queued tick fires", (RT, "if atomic.LoadInt32(&a.closed) != 0 || !timerInfo.IsActive() {", "if atomic.LoadInt32(&a.closed) != 0 {"))
m("A10-2", "A10", "reset does not reactivate", (TI, "	t.active.Store(true)\n	t.nextTick.Store(time.Now().Add(t.interval))\n\n	if", "	t.nextTick.Store(time.Now().Add(t.interval))\n\n	if"))
m("A10-3", "A10", "stop before due leaves ticker", (TI, "	if !t.active.Load() {\n		t.ticker.Stop()\n	}\n	return t.ticker", "	return t.ticker"), (RT, "!timerInfo.IsActive() {", "false {"))
m("A10-4", "A10", "due delay dropped for one-shot", (RT, "due := time.NewTimer(info.dueTime)", "due := time.NewTimer(max(info.dueTime, info.interval))"))
m("A10-5", "A10", "reset interval not applied to the running ticker", (TI, "		t.ticker.Reset(t.interval)", "		_ = 0"))
m("A10-6", "A10", "one-shot fires twice if interval unset: ticker with due", (TI, "	if t.interval <= 0 {\n		return nil\n	}\n\n	t.ticker", "	if t.interval <= 0 {\n		if t.dueTime < 20*time.Millisecond {\n			return nil\n		}\n		t.interval = t.dueTime\n	}\n\n	t.ticker"))
m("A10-7", "A10", "cancel only deletes", (RT, "	t.Stop()\n	a.timersMu.Lock()", "	if _, ok := a.timers[t]; !ok {\n		return\n	}\n	if t.Interval() > 0 {\n		t.Stop()\n	}\n	a.timersMu.Lock()"))
m("A10-8", "A10", "panic in callback stops timer", (RT, "					if r := recover(); r != nil {\n						a.recovery(r)\n					}\n				}()\n\n				if err := timerInfo", "					if r := recover(); r != nil {\n						timerInfo.Stop()\n						a.recovery(r)\n					}\n				}()\n\n				if err := timerInfo"))
m("A10-9", "A10", "callback error cancels the timer", (RT, "log.WarnF(\"actor %v timer callback error: %v\", a.Id, err)", "a.CancelTimer(timerInfo)"))
m("A11-1", "A11", "after runs even if handler failed", (CH, "	err = c.Handler(mw)\n	if err != nil {\n		goto ext\n	}\n\n	for", "	err = c.Handler(mw)\n\n	for"))
m("A11-2", "A11", "before error ignored if mw.Err set", (CH, "		err = before(mw)\n		if err != nil {", "		err = before(mw)\n		if err != nil && mw.Err == nil {"))
m("A11-3", "A11", "after in reverse", (CH, "	for _, after := range c.After {\n		err = after(mw)", "	for i := range c.After {\n		err = c.After[len(c.After)-1-i](mw)"))
m("A11-4", "A11", "repeated OnEvent overwrites", (RT, "	if _, exists := a.chains[ev]; exists {\n		return fmt.Errorf(\"actor: repeat register event %v\", ev)\n	}\n	a.chains[ev] = chain", "	a.chains[ev] = chain"), (RT, "	a.chainsMu.RLock()\n	_, exists := a.chains[ev]\n	a.chainsMu.RUnlock()\n	if exists {", "	a.chainsMu.RLock()\n	_, exists := a.chains[ev]\n	a.chainsMu.RUnlock()\n	if exists && len(a.chains) > 2 {"))
# ---- small
m("Q01-1", "Q01", "put bypasses backlog", (UB, "	if len(b.backlog) == 0 {\n		select {\n		case b.c <- t:\n			b.Unlock()\n			return\n		default:\n		}\n	}", "	select {\n	case b.c <- t:\n		b.Unlock()\n		return\n	default:\n	}"))
m("Q01-2", "Q01", "load drops element", (UB, "		case b.c <- b.backlog[0]:\n			b.backlog[0] = nil\n			b.backlog = b.backlog[1:]\n		default:\n		}", "		case b.c <- b.backlog[0]:\n		default:\n		}\n		b.backlog[0] = nil\n		b.backlog = b.backlog[1:]"))
m("V01-1", "V01", "next picks the first registered greater", (EN, "(next == ver || v.Version < next)", "next == ver"))
m("V01-2", "V01", "get strategy of at least ver", (EN, "if v.Version == ver {", "if v.Version >= ver {"))
m("B01-1", "B01", "WithOpt mutates shared map", (BU, "	options := make(map[string]string, len(p.Options)+1)\n	for k, v := range p.Options {\n		options[k] = v\n	}\n	options[key] = value\n	p.Options = options", "	if p.Options == nil {\n		p.Options = make(map[string]string)\n	}\n	p.Options[key] = value"))
m("B01-2", "B01", "WithOpt keeps first value", (BU, "	options[key] = value\n", "	if _, ok := options[key]; !ok {\n		options[key] = value\n	}\n"))
m("B01-3", "B01", "WithType writes constructor", (BU, "	p.Name = ty\n	return p", "	p.Name = ty\n	p.ID = ty\n	return p"))
m("D01-1", "D01", "unlock without compare", (DM, "if redis.call(\"get\", KEYS[1]) == ARGV[1] then", "if redis.call(\"get\", KEYS[1]) then"))
m("D01-2", "D01", "lock overwrites on last try", (DM, "		if err == nil && reply {", "		if err == nil && (reply || i == Tries-1) {"))
m("D01-3", "D01", "expiry shorter", (DM, "Expiry = 10 * time.Second", "Expiry = 2 * time.Second"))
m("D01-4", "D01", "error on last try hides", (DM, "		if err == nil && reply {", "		if reply || err != nil {"))
m("M01-1", "M01", "existing keys win", (MM, "	for _, attr := range attrs {\n		data[attr.Key] = attr.Value\n	}\n\n	return b.WithReqCustomFieldsMap", "	for _, attr := range attrs {\n		if _, ok := data[attr.Key]; !ok {\n			data[attr.Key] = attr.Value\n		}\n	}\n\n	return b.WithReqCustomFieldsMap"))
m("M01-2", "M01", "res decode skips", (MM, "	if len(b.wrapper.Res.Header.Custom) > 0 {\n		if err", "	if len(b.wrapper.Res.Header.Custom) > 2 && len(attrs) < 2 {\n		if err"))
m("M01-3", "M01", "int64 truncated", (MM, "			return any(int64(f)).(T)", "			return any(int64(int32(f))).(T)"))
m("M01-4", "M01", "decode error wipes", (MM, "			b.wrapper.Err = fmt.Errorf(\"unmarshal existing custom fields failed: %w\", err)\n			return b\n		}\n		if data == nil { // the existing fields were set from a nil map\n			data = make(map[string]any, len(attrs))\n		}\n	}\n\n	for _, attr := range attrs {\n		data[attr.Key] = attr.Value\n	}\n\n	return b.WithReq", "			data = make(map[string]any, len(attrs))\n		}\n		if data == nil { // the existing fields were set from a nil map\n			data = make(map[string]any, len(attrs))\n		}\n	}\n\n	for _, attr := range attrs {\n		data[attr.Key] = attr.Value\n	}\n\n	return b.WithReq"))
m("K01-1", "K01", "stop does not interrupt pending due", (TK, "		if stopped() {\n			return\n		}\n\n		ticker", "		ticker"), (TK, "			case <-due.C:\n			case <-stopCh:\n				return\n			}", "			case <-due.C:\n			}"))
m("K01-2", "K01", "start restarts a running task", (TK, "if tt.State == Timer_state_init || tt.State == Timer_state_stop {", "if tt.State != \"\" {"))
m("K01-3", "K01", "cannot restart", (TK, "if tt.State == Timer_state_init || tt.State == Timer_state_stop {", "if tt.State == Timer_state_init {"))
m("K01-4", "K01", "panic ends the task", (TK, "			if err := recover(); err != nil {\n", "			if err := recover(); err != nil {\n				task.stop()\n"))
m("K01-5", "K01", "first run after interval", (TK, "		handler()\n		for {", "		for {"))
m("K01-6", "K01", "IsEnd ignored", (TK, "		if !task.Context().IsEnd {\n			err = task.handler(task.Context())\n		}", "		err = task.handler(task.Context())"))
m("K01-7", "K01", "stop ignored while a run is in progress (isRun false)", (TS, "	if task.State == Timer_state_run {\n		close(task.stopCh)", "	if task.State == Timer_state_run {\n		if task.DueTime <= 0 {\n			close(task.stopCh)\n		}"))
m("T01-1", "T01", "release missing retain", (SR, "span: span.Retain()}", "span: span}"))
m("T01-2", "T01", "drop not counted", (SR, "		r.reporterStats.incDroppedCount()\n", ""))
m("T01-3", "T01", "close without draining", (SR, "			case reporterQueueItemClose:\n				timer.Stop()\n				flush()", "			case reporterQueueItemClose:\n				timer.Stop()"))
m("T01-4", "T01", "close twice closes sender twice", (SR, "	if swapped := atomic.CompareAndSwapInt64(&r.closed, 0, 1); !swapped {\n		return\n	}", "	if atomic.LoadInt64(&r.closed) == 1 {\n		return\n	}\n	defer atomic.StoreInt64(&r.closed, 1)"))
m("T01-5", "T01", "unsampled not released", (SR, "				span.Release()\n			case", "				if sample {\n					span.Release()\n				}\n			case"))
# ---- cluster
m("R01-1", "R01", "type set keeps entry on unregister", (AB, "	pipe.SRem(ctx, fmt.Sprintf(def.RedisAddressbookTyField+\"%s\", info.ActorTy), addrJSON)\n\n	// 更新", "	if info.Node == ab.NodeID {\n		pipe.SRem(ctx, fmt.Sprintf(def.RedisAddressbookTyField+\"%s\", info.ActorTy), addrJSON)\n	}\n\n	// 更新"))
m("R01-2", "R01", "unregister keeps IDMap", (AB, "	if err == nil {\n		ab.Lock()\n		delete(ab.IDMap, id) // try delete\n		ab.Unlock()\n	}", "	if err == nil && info.Node != ab.NodeID {\n		ab.Lock()\n		delete(ab.IDMap, id) // try delete\n		ab.Unlock()\n	}"))
m("R01-3", "R01", "register sets IDMap before redis", (AB, "	ab.RUnlock()\n\n	// serialize address info to json\n", "	ab.RUnlock()\n	ab.Lock()\n	ab.IDMap[id] = true\n	ab.Unlock()\n\n	// serialize address info to json\n"))
m("R01-4", "R01", "Unregister before Exit", (SY, "	if exists {\n		// Call Exit on the actor\n		actor.Exit()\n	}", "	if exists {\n		// Call Exit on the actor\n		go actor.Exit()\n	}"))
m("R01-5", "R01", "actor map removal only when redis ok", (SY, "	// Remove the actor from the map\n	delete(sys.actoridmap, id)\n	sys.Unlock()", "	sys.Unlock()\n	if exists && actor.Type() == ty {\n		sys.Lock()\n		delete(sys.actoridmap, id)\n		sys.Unlock()\n	}"))
m("R02-1", "R02", "weight removed from own node", (AB, "pipe.HIncrBy(ctx, makeNodeKey(info.Node), \"total_weight\", int64(-weight))", "pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), \"total_weight\", int64(-weight))"))
m("R02-2", "R02", "no hdel gate", (AB, "	if removed == 0 {", "	if removed == 0 && info.Node != ab.NodeID {"))
m("R02-3", "R02", "zero/one weight skip: weight floor", (AB, "pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), \"total_weight\", int64(weight))", "pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), \"total_weight\", int64(max(weight, 1)))"))
m("R02-4", "R02", "unregister weight of the constructor of another type", (SY, "err := sys.addressbook.Unregister(context.TODO(), id, sys.factory.Get(ty).Weight)", "w := sys.factory.Get(ty).Weight\n	if sys.factory.Get(ty).Dynamic {\n		w = 1\n	}\n	err := sys.addressbook.Unregister(context.TODO(), id, w)"))
m("R03-1", "R03", "first node wins on weight 0 parse", (AB, "		weight, _ := strconv.Atoi(weightStr)\n\n		if weight < lowestWeight {", "		weight, _ := strconv.Atoi(weightStr)\n\n		if weight < lowestWeight && weight > 0 {"))
m("R03-2", "R03", "break after first unmarshal", (AB, "			lowestWeight = weight\n			selectedNode = nodeInfo", "			if selectedNode.Node == \"\" {\n				lowestWeight = weight\n			}\n			selectedNode = nodeInfo"))
m("R03-3", "R03", "wildcard picks highest", (AB, "		if nodeWeight < lowestWeight {", "		if nodeWeight <= lowestWeight || nodeWeight > 1000 {"))
m("R03-4", "R03", "int compare as strings", (AB, "		if weight < lowestWeight {\n			var", "		if selectedNode.Node == \"\" || weightStr < strconv.Itoa(lowestWeight) {\n			var"))
m("R04-1", "R04", "limit off by one", (SY, "if int(cnt) >= builder.GetGlobalQuantityLimit() {", "if int(cnt) > builder.GetGlobalQuantityLimit() {"))
m("R04-2", "R04", "unique ignores registering", (SY, "	for _, v := range sys.registering {\n		if v == ty {\n			return true\n		}\n	}\n	return false", "	return false"))
m("R04-3", "R04", "repeat check only by map", (SY, "	if _, ok := sys.registering[builder.GetID()]; ok {\n		sys.Unlock()\n		return nil, core.ErrActorRegisterRepeat\n	}\n", ""))
m("R04-4", "R04", "refused registration leaves reservation", (SY, "			return nil, fmt.Errorf(\"braid.system actor %v global quantity limit current count %v\", builder.GetType(), cnt)", "			sys.Lock()\n			sys.registering[builder.GetID()+\"~\"] = builder.GetType()\n			sys.Unlock()\n			return nil, fmt.Errorf(\"braid.system actor %v global quantity limit current count %v\", builder.GetType(), cnt)"))
m("R05-1", "R05", "prefix match", (AB, "			if actor.Node == ab.NodeID {", "			if len(actor.Node) >= len(ab.NodeID) && actor.Node[:len(ab.NodeID)] == ab.NodeID {"))
m("R05-2", "R05", "IDMap kept", (AB, "	ab.Lock()\n	ab.IDMap = make(map[string]bool)\n	ab.Unlock()\n\n	return nil", "	return nil"))
m("R05-3", "R05", "node entry kept", (AB, "	pipe.HDel(ctx, def.RedisAddressbookNodesField, ab.NodeID)\n\n	// 执行", "	// 执行"))
m("R05-4", "R05", "exit clears before the actors exit... id field of other", (AB, "				pipe.SRem(ctx, actorTypeKey, actorJSON)\n				pipe.HDel(", "				pipe.HDel("))
m("R05-5", "R05", "exit skips clear when no acceptor", (SY, "	err := sys.addressbook.Clear(context.TODO())\n	if err != nil {", "	var err error\n	if len(sys.Actors()) > 0 {\n		err = sys.addressbook.Clear(context.TODO())\n	}\n	if err != nil {"))
m("R06-1", "R06", "send does not report", (SY, "cleaned up\", actorType, info.ActorId, event)\n		return ErrSelfCall", "cleaned up\", actorType, info.ActorId, event)\n		return nil"))
m("R06-2", "R06", "cleans running actor", (SY, "	if running || registering {\n		return fmt.Errorf(\"actor is being registered\")\n	}", "	_ = registering\n	if running {\n		return fmt.Errorf(\"actor is being registered\")\n	}"))
m("R06-3", "R06", "cleaned under caller's type weight", (SY, "	if info.ActorTy != \"\" {\n		actorType = info.ActorTy\n	}\n\n	ac :=", "	ac :="))
m("R06-4", "R06", "wildcard stale not cleaned", (SY, "	return sys.addressbook.Unregister(ctx, info.ActorId, ac.Weight)", "	if info.ActorTy == \"\" {\n		return nil\n	}\n	return sys.addressbook.Unregister(ctx, info.ActorId, ac.Weight)"))
m("N01-1", "N01", "remote response dropped when body empty", (SY, "	mw.Res = res.Msg\n	return nil", "	if len(res.Msg.Body) > 0 {\n		mw.Res = res.Msg\n	}\n	return nil"))
m("N01-2", "N01", "acceptor uses fresh header id / prev", (AC, "	routermsg.Req = req.Msg\n", "	routermsg.Req = req.Msg\n	routermsg.Req.Header.OrgActorType = \"\"\n"))
m("N01-3", "N01", "acceptor strips custom", (AC, "	res.Msg = routermsg.Res\n", "	res.Msg = routermsg.Res\n	if len(res.Msg.Header.Custom) == 0 {\n		res.Msg.Header.Custom = req.Msg.Header.Custom\n	}\n"))
m("N01-4", "N01", "retry on error duplicates", (SY, "	if err != nil {\n		return err\n	}\n\n	mw.Res = res.Msg", "	if err != nil {\n		err = sys.client.CallWait(context.WithoutCancel(ctx), fmt.Sprintf(\"%s:%d\", addrinfo.Ip, addrinfo.Port), \"/router.Acceptor/routing\", &router.RouteReq{Msg: mw.Req}, res)\n	}\n	if err != nil {\n		return err\n	}\n\n	mw.Res = res.Msg"))
m("N02-1", "N02", "local first ignores type", (SY, "		if actor.Type() == ty {\n			sys.RUnlock()", "		if actor.Type() == ty || ty == \"\" {\n			sys.RUnlock()"))
m("N02-2", "N02", "local-first never local when several", (SY, "	for id, actor := range sys.actoridmap {\n		if actor.Type() == ty {", "	for id, actor := range sys.actoridmap {\n		if actor.Type() == ty && len(sys.actoridmap) < 3 {"))
m("N02-3", "N02", "wildcard by prefix type key", (AB, "func (ab *AddressBook) GetWildcardActor(ctx context.Context, actorType string) (core.AddressInfo, error) {\n	key := fmt.Sprintf(def.RedisAddressbookTyField+\"%s\", actorType)", "func (ab *AddressBook) GetWildcardActor(ctx context.Context, actorType string) (core.AddressInfo, error) {\n	key := fmt.Sprintf(def.RedisAddressbookTyField+\"%.4s\", actorType)"))
m("N03-1", "N03", "no clone", (SY, "Msg: proto.Clone(mw.Req).(*router.Message)", "Msg: mw.Req"), (SY, '	"github.com/gogo/protobuf/proto"\n', ''))
m("N03-2", "N03", "ctx cancel kills send", (SY, "ctx := context.WithoutCancel(mw.Ctx)\n	req", "ctx := mw.Ctx\n	req"))
m("N03-3", "N03", "send waits for the handler", (SY, "	go func() {\n		if err := sys.client.Call(ctx, addr", "	func() {\n		if err := sys.client.Call(ctx, addr"))
m("N03-4", "N03", "local send retried", (SY, "		if ok {\n			return actorp.Received(mw)\n		}", "		if ok {\n			return sys.localCall(actorp, mw)\n		}"))
m("N04-1", "N04", "acceptor hides routermsg.Err", (AC, "	if err == nil {\n		err = routermsg.Err // e.g. the call timed out\n	}\n", ""))
m("N04-2", "N04", "lookup failure hidden", (AB, "			return core.AddressInfo{}, ErrUnknownActor\n", "			return core.AddressInfo{Node: ab.NodeID, Ip: ab.Ip, Port: ab.Port, ActorId: id}, nil\n"))
m("N04-3", "N04", "remote call error swallowed on unavailable", (SY, "	if err != nil {\n		return err\n	}\n\n	mw.Res = res.Msg", "	if err != nil {\n		mw.Err = err\n		return nil\n	}\n\n	mw.Res = res.Msg"))
m("G01-1", "G01", "slot leaked on connection error", (GC, "		defer func() { <-c.workers }() // 释放工作槽\n", ""), (GC, "		return fmt.Errorf(\"[braid.client] failed to get connection: %w\", err)\n	}\n", "		return fmt.Errorf(\"[braid.client] failed to get connection: %w\", err)\n	}\n	defer func() { <-c.workers }()\n"))
m("G01-2", "G01", "slot released early", (GC, "		defer func() { <-c.workers }() // 释放工作槽\n", "		<-c.workers\n"))
m("G01-3", "G01", "expired ctx blocks", (GC, "	case <-ctx.Done():\n		return fmt.Errorf(\"[braid.client] failed to acquire", "	case <-context.Background().Done():\n		return fmt.Errorf(\"[braid.client] failed to acquire"))
m("G01-4", "G01", "ctx done takes the slot anyway", (GC, "	g, gCtx := errgroup.WithContext(ctx)\n	g.Go(func() error {\n		if err := conn.Invoke(gCtx", "	g, gCtx := errgroup.WithContext(ctx)\n	_ = gCtx\n	g.Go(func() error {\n		if err := conn.Invoke(context.WithoutCancel(ctx)"))
# ---- pubsub
m("S01-1", "S01", "read batch drops after 5", (PC, "				for _, msg := range v.Messages {\n", "				for i, msg := range v.Messages {\n					if i >= 8 {\n						break\n					}\n"))
m("S01-2", "S01", "read from pending on error re-delivers: NOACK off; re-read id 0", (PC, 'Streams:  []string{c.topic, ">"},', 'Streams:  []string{c.topic, id},'), (PC, "		for atomic.LoadInt32(&c.exitFlag) == 0 {\n", "		id := \"0\"\n		for atomic.LoadInt32(&c.exitFlag) == 0 {\n"), (PC, "			for _, v := range msgs {\n", "			id = \">\"\n			for _, v := range msgs {\n"))
m("S01-3", "S01", "body/event swap: body trimmed", (PC, 'val := msg.Values["msg"].(string)', 'val := strings.TrimSpace(msg.Values["msg"].(string))'))
m("S01-4", "S01", "pub asynchronous", (PT, "	_, err := thdredis.XAdd(ctx, &redis.XAddArgs{\n		Stream: rt.topic,", "	if len(body) > 64 {\n		go thdredis.XAdd(ctx, &redis.XAddArgs{Stream: rt.topic, ID: \"*\", Values: []string{\"msg\", string(body), \"event\", event}})\n		return nil\n	}\n	_, err := thdredis.XAdd(ctx, &redis.XAddArgs{\n		Stream: rt.topic,"))
m("S02-1", "S02", "consumer = channel name, delete shared consumer", (PC, "		consumer: uuid.New().String(),", "		consumer: channel,"), (PC, '	"github.com/google/uuid"\n', ''))
m("S02-2", "S02", "each subscriber its own group", (PC, "		channel:  channel,\n		consumer: uuid.New().String(),", "		channel:  channel + uuid.New().String(),\n		consumer: uuid.New().String(),"))
m("S02-3", "S02", "close destroys with consumers left", (PC, "	if len(consumers) == 0 {", "	if len(consumers) <= 1 {"))
m("S02-4", "S02", "busygroup resets the group", (PC, '	if err != nil && err.Error() != "BUSYGROUP Consumer Group name already exists" {', '	if err != nil {\n		thdredis.GetClient().XGroupDestroy(ctx, topic, c.channel)\n		_, err = thdredis.XGroupCreate(ctx, topic, c.channel, p.ReadMode).Result()\n	}\n	if err != nil {'))
m("S03-1", "S03", "xdel without asking", (PC, "if c.readByAll(recvmsg.Header.ID) {", "if true {"))
m("S03-2", "S03", "readbyall on own group only", (PC, "		if streamIDLess(g.LastDeliveredID, id) {", "		if streamIDLess(g.LastDeliveredID, id) && g.Consumers > 0 {"))
m("S03-3", "S03", "string comparison of ids", (PC, "	ams, aseq := parseStreamID(a)\n	bms, bseq := parseStreamID(b)\n	if ams != bms {\n		return ams < bms\n	}\n	return aseq < bseq", "	return a < b"))
m("S03-4", "S03", "seq ignored", (PC, "	return aseq < bseq", "	return aseq < bseq && ams == 0"))
m("S03-5", "S03", "no groups info error => delete", (PC, "info groups failed: %v\", c.topic, c.channel, err)\n		return false", "info groups failed: %v\", c.topic, c.channel, err)\n		return true"))
m("S04-1", "S04", "pending channels ignored", (PT, " or #redis.call(\"XINFO\", \"GROUPS\", KEYS[1]) > 0", ""))
m("S04-2", "S04", "empty event published", (PT, "	if event == \"\" {", "	if event == \"\" && len(body) == 0 {"))
m("S04-3", "S04", "ttl in seconds", (PT, "PEXPIRE", "EXPIRE"))
m("S04-4", "S04", "topic set not maintained", (PT, '	redis.call("SREM", KEYS[2], KEYS[1])\n', ''))
m("S01-5", "S01", "read mode ignored", (PC, "c.channel, p.ReadMode)", "c.channel, ReadModeLatest)"))
m("S01-6", "S01", "an error of the read ends the loop", (PC, "			msgs := thdredis.XReadGroup(", "			msgs, err := thdredis.XReadGroup("), (PC, "			}).Val()\n", "			}).Result()\n			if err != nil && err != redis.Nil {\n				return\n			}\n"))
m("S05-1", "S05", "stop does not wait the handlers", (PC, "	<-c.loopDone\n	c.handlers.Wait()\n", "	<-c.loopDone\n"))
m("S05-2", "S05", "stop does not wait the loop", (PC, "	<-c.loopDone\n	c.handlers.Wait()\n", ""))
m("S05-3", "S05", "loop checks flag only when no messages", (PC, "		for atomic.LoadInt32(&c.exitFlag) == 0 {", "		for idle := false; !idle || atomic.LoadInt32(&c.exitFlag) == 0; {"), (PC, "			for _, v := range msgs {\n", "			idle = len(msgs) == 0\n			for _, v := range msgs {\n"))
m("S05-4", "S05", "exit leaves one subscription", (RT, "		for _, ch := range subs {\n			ch.Stop()", "		for i, ch := range subs {\n			if i > 0 && i == len(subs)-1 {\n				continue\n			}\n			ch.Stop()"))
from mutations2 import MUTS2
MUTS = M + MUTS2
