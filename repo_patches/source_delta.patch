From 4bb7a550c989dc1a34d28503e97bcc93b0a1cc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:59 +0000
Subject: [PATCH 01/27] fix: actor timers: interval 0 and cancelling during the
 due time panicked, cancelled timers could still fire

---
 core/actor/actor_runtime_impl.go | 41 +++++++++++++++++++++++++-------
 core/actor/actor_timer.go        | 35 +++++++++++++++++++++++++--
 2 files changed, 66 insertions(+), 10 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 695ac6d..afa7815 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -104,18 +104,42 @@ func (a *Runtime) OnTimer(dueTime int64, interval int64, f func(interface{}) err
 	go func() {
 		//defer a.timerWg.Done()
 
-		// 如果 dueTime 大于 0，使用 dueTime 进行第一次触发
-		if info.dueTime > 0 {
-			<-time.After(info.dueTime)
-			a.timerChan <- info
+		fire := func() bool {
+			select {
+			case a.timerChan <- info:
+				return true
+			case <-a.shutdownCh:
+				return false
+			}
 		}
 
-		info.ticker = time.NewTicker(info.interval)
+		// 如果 dueTime 大于 0，使用 dueTime 进行第一次触发; interval 为 0 时只触发一次
+		if info.dueTime > 0 || info.interval <= 0 {
+			due := time.NewTimer(info.dueTime)
+			defer due.Stop()
+
+			select {
+			case <-due.C:
+			case <-a.shutdownCh:
+				return
+			}
+			if !fire() {
+				return
+			}
+		}
+
+		ticker := info.startTicker()
+		if ticker == nil {
+			return
+		}
+		defer ticker.Stop()
 
 		for {
 			select {
-			case <-info.ticker.C:
-				a.timerChan <- info
+			case <-ticker.C:
+				if !fire() {
+					return
+				}
 			case <-a.shutdownCh:
 				return
 			}
@@ -303,7 +327,8 @@ func (a *Runtime) update() {
 	for {
 		select {
 		case timerInfo := <-a.timerChan:
-			if atomic.LoadInt32(&a.closed) != 0 {
+			// a timer that was cancelled after this tick was queued must not fire
+			if atomic.LoadInt32(&a.closed) != 0 || !timerInfo.IsActive() {
 				continue
 			}
 			func() {
diff --git a/core/actor/actor_timer.go b/core/actor/actor_timer.go
index 0069d54..dcc0d58 100644
--- a/core/actor/actor_timer.go
+++ b/core/actor/actor_timer.go
@@ -1,6 +1,7 @@
 package actor
 
 import (
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -9,6 +10,7 @@ import (
 
 type TimerInfo struct {
 	ID       string
+	mutex    sync.Mutex // guards ticker and interval
 	ticker   *time.Ticker
 	dueTime  time.Duration
 	interval time.Duration
@@ -23,12 +25,36 @@ func (t *TimerInfo) Stop() bool {
 		return false
 	}
 	t.active.Store(false)
-	t.ticker.Stop()
+
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+	if t.ticker != nil { // nil until the due time has passed
+		t.ticker.Stop()
+	}
 
 	return true
 }
 
+// startTicker creates the ticker for the periodic phase, or returns nil if the timer executes only once.
+func (t *TimerInfo) startTicker() *time.Ticker {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
+	if t.interval <= 0 {
+		return nil
+	}
+
+	t.ticker = time.NewTicker(t.interval)
+	if !t.active.Load() {
+		t.ticker.Stop()
+	}
+	return t.ticker
+}
+
 func (t *TimerInfo) Reset(interval time.Duration) bool {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
 	if interval > 0 {
 		// 如果 interval 和 t.interval 相同，则不处理
 		if t.interval == interval {
@@ -43,7 +69,9 @@ func (t *TimerInfo) Reset(interval time.Duration) bool {
 	t.active.Store(true)
 	t.nextTick.Store(time.Now().Add(t.interval))
 
-	t.ticker.Reset(t.interval)
+	if t.ticker != nil {
+		t.ticker.Reset(t.interval)
+	}
 	return true
 }
 
@@ -52,6 +80,9 @@ func (t *TimerInfo) IsActive() bool {
 }
 
 func (t *TimerInfo) Interval() time.Duration {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
 	return t.interval
 }
 
-- 
2.43.0


From 2207c68707aaa9fb10662575d7f2b555070045f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:59 +0000
Subject: [PATCH 02/27] fix: actor exit lost accepted messages, returned while
 a handler ran, spun while draining and panicked when repeated

---
 core/actor/actor_runtime_impl.go | 44 +++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index afa7815..a3a7d9e 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"reflect"
 	"runtime/debug"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -29,11 +30,15 @@ type Runtime struct {
 	q            *mpsc.Queue
 	reenterQueue *mpsc.Queue
 	closed       int32
+	receiving    int32 // number of Received calls between the closed check and the push
+	busy         int32 // 1 while a message taken from a queue is being handled
+	exitOnce     sync.Once
 	closeCh      chan struct{}
 	shutdownCh   chan struct{}
 	chains       map[string]core.IChain
 	recovery     RecoveryFunc
 
+	timersMu  sync.Mutex // guards timers
 	timers    map[core.ITimer]struct{}
 	timerChan chan core.ITimer
 	//timerWg   sync.WaitGroup // 用于等待所有 timer goroutine 退出
@@ -98,7 +103,9 @@ func (a *Runtime) OnTimer(dueTime int64, interval int64, f func(interface{}) err
 		time.Duration(interval)*time.Millisecond,
 		f, args)
 
+	a.timersMu.Lock()
 	a.timers[info] = struct{}{}
+	a.timersMu.Unlock()
 	//a.timerWg.Add(1)
 
 	go func() {
@@ -157,7 +164,9 @@ func (a *Runtime) CancelTimer(t core.ITimer) {
 	log.InfoF("[braid.timer] %v timer cancel", a.Id)
 
 	t.Stop()
+	a.timersMu.Lock()
 	delete(a.timers, t)
+	a.timersMu.Unlock()
 }
 
 // Sub subscribes to a message
@@ -201,6 +210,11 @@ func (a *Runtime) Received(mw *msg.Wrapper) error {
 		}
 	}
 
+	// The drain check of Exit waits for receiving to drop to 0, so a message that passes
+	// the closed check is in the queue before the actor can be considered drained.
+	atomic.AddInt32(&a.receiving, 1)
+	defer atomic.AddInt32(&a.receiving, -1)
+
 	if atomic.LoadInt32(&a.closed) != 0 {
 		// Actor已关闭，不处理消息，也不增加计数器
 		log.WarnF("actor %v is closed, message %v will be ignored", a.Id, mw.Req.Header.Event)
@@ -307,7 +321,14 @@ func (a *Runtime) update() {
 		ticker := time.NewTicker(10 * time.Millisecond)
 		defer ticker.Stop()
 
-		for !a.q.Empty() || !a.reenterQueue.Empty() {
+		// busy is set before a message is popped, so it has to be read after the queue counts
+		drained := func() bool {
+			return atomic.LoadInt32(&a.receiving) == 0 &&
+				a.q.Count() <= 0 && a.reenterQueue.Count() <= 0 &&
+				atomic.LoadInt32(&a.busy) == 0
+		}
+
+		for !drained() {
 			select {
 			case <-timeout:
 				log.WarnF("[braid.actor] %s force close due to timeout waiting for queue to empty remaining %v", a.Id, a.q.Count())
@@ -324,7 +345,11 @@ func (a *Runtime) update() {
 		}
 	}
 
+	shutdownCh := a.shutdownCh
+
 	for {
+		atomic.StoreInt32(&a.busy, 0)
+
 		select {
 		case timerInfo := <-a.timerChan:
 			// a timer that was cancelled after this tick was queued must not fire
@@ -343,6 +368,7 @@ func (a *Runtime) update() {
 				}
 			}()
 		case <-a.q.C:
+			atomic.StoreInt32(&a.busy, 1)
 			msgInterface := a.q.Pop()
 
 			mw, ok := msgInterface.(*msg.Wrapper)
@@ -371,12 +397,14 @@ func (a *Runtime) update() {
 			}()
 
 		case <-a.reenterQueue.C:
+			atomic.StoreInt32(&a.busy, 1)
 			reenterMsgInterface := a.reenterQueue.Pop()
 			if reenterMsg, ok := reenterMsgInterface.(*reenterMessage); ok {
 				reenterMsg.action(reenterMsg.msg.(*msg.Wrapper))
 			}
 
-		case <-a.shutdownCh:
+		case <-shutdownCh:
+			shutdownCh = nil // handled once, the closed channel would be ready forever
 			if atomic.CompareAndSwapInt32(&a.closed, 0, 1) {
 				log.DebugF("[braid.actor] %s exiting check close %v", a.Id, atomic.LoadInt32(&a.closed))
 				go checkClose()
@@ -390,10 +418,18 @@ func (a *Runtime) update() {
 
 func (a *Runtime) Exit() {
 	log.DebugF("[braid.actor] %s exiting state %v remaining msg %v", a.Id, atomic.LoadInt32(&a.closed), a.q.Count())
-	close(a.shutdownCh) // 发送关闭信号
-	<-a.closeCh         // 等待所有消息处理完毕
+	a.exitOnce.Do(func() {
+		close(a.shutdownCh) // 发送关闭信号
+	})
+	<-a.closeCh // 等待所有消息处理完毕
 
+	a.timersMu.Lock()
+	timers := make([]core.ITimer, 0, len(a.timers))
 	for t := range a.timers {
+		timers = append(timers, t)
+	}
+	a.timersMu.Unlock()
+	for _, t := range timers {
 		a.CancelTimer(t)
 	}
 	//a.timerWg.Wait()
-- 
2.43.0


From 6dbc310c49f399bf1e39f6b76975fe23cc55e03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 03/27] fix: low weight node lookup paired nodes with the
 weights of other nodes

---
 core/addressbook/addressbook_impl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 1a2412e..8b6400d 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -253,7 +253,9 @@ func (ab *AddressBook) GetLowWeightNodeForActor(ctx context.Context, actorType s
 	pipe := trdredis.Pipeline()
 
 	// 使用 pipeline 批量获取节点权重
+	nodeIDs := make([]string, 0, len(nodeInfoMap)) // map iteration order differs between loops
 	for nodeID := range nodeInfoMap {
+		nodeIDs = append(nodeIDs, nodeID)
 		pipe.HGet(ctx, makeNodeKey(nodeID), "total_weight")
 	}
 
@@ -263,7 +265,8 @@ func (ab *AddressBook) GetLowWeightNodeForActor(ctx context.Context, actorType s
 	}
 
 	i := 0
-	for nodeID, nodeInfoJSON := range nodeInfoMap {
+	for _, nodeID := range nodeIDs {
+		nodeInfoJSON := nodeInfoMap[nodeID]
 		if i >= len(cmders) {
 			break
 		}
-- 
2.43.0


From 59dd92fcf9423b1bde7ad2ddbab171a6cb2dca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 04/27] fix: repeated or remote removal of an address drove
 node weights off

---
 core/addressbook/addressbook_impl.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 8b6400d..51de3bc 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -112,14 +112,22 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 		return fmt.Errorf("addressbook.unregister json unmarshal err %v", err.Error())
 	}
 
+	// of several concurrent removals only one may give the weight back
+	removed, err := trdredis.HDel(ctx, def.RedisAddressbookIDField, id).Result()
+	if err != nil {
+		return fmt.Errorf("addressbook.unregister hdel err %v", err.Error())
+	}
+	if removed == 0 {
+		return fmt.Errorf("address not found for id: %s", id)
+	}
+
 	// execute multiple redis operations using pipeline
 	pipe := trdredis.Pipeline()
-	pipe.HDel(ctx, def.RedisAddressbookIDField, id)
 	pipe.SRem(ctx, fmt.Sprintf(def.RedisAddressbookTyField+"%s", info.ActorTy), addrJSON)
 
-	// 更新节点记录
-	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), fmt.Sprintf("actor:%s", info.ActorTy), int64(-weight))
-	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), "total_weight", int64(-weight))
+	// 更新节点记录 (the record may belong to another node)
+	pipe.HIncrBy(ctx, makeNodeKey(info.Node), fmt.Sprintf("actor:%s", info.ActorTy), int64(-weight))
+	pipe.HIncrBy(ctx, makeNodeKey(info.Node), "total_weight", int64(-weight))
 
 	_, err = pipe.Exec(ctx)
 	if err == nil {
-- 
2.43.0


From bef5435c0b203776de70ad667c6bcf5670cda36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:59 +0000
Subject: [PATCH 05/27] fix: node-unique types without a limit and concurrent
 registrations of an id were not refused

---
 core/node/system_impl.go | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 7044d19..63fbc8f 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -24,6 +24,7 @@ import (
 type NormalSystem struct {
 	addressbook *addressbook.AddressBook
 	actoridmap  map[string]core.IActor
+	registering map[string]string // id -> type of registrations in progress
 	client      *grpc.Client
 	ps          *pubsub.Pubsub
 	acceptor    *Acceptor
@@ -48,6 +49,7 @@ func buildSystemWithOption(nodId, nodeIp string, nodePort int, loader core.IActo
 
 	sys := &NormalSystem{
 		actoridmap:  make(map[string]core.IActor),
+		registering: make(map[string]string),
 		nodeID:      nodId,
 		nodeIP:      nodeIp,
 		nodePort:    nodePort,
@@ -107,17 +109,24 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 		sys.Unlock()
 		return nil, core.ErrActorRegisterRepeat
 	}
+	if _, ok := sys.registering[builder.GetID()]; ok {
+		sys.Unlock()
+		return nil, core.ErrActorRegisterRepeat
+	}
+	if builder.GetNodeUnique() && sys.hasType(builder.GetType()) {
+		sys.Unlock()
+		return nil, fmt.Errorf("[barid.system] register unique type actor %v in %v", builder.GetType(), sys.nodeID)
+	}
+	sys.registering[builder.GetID()] = builder.GetType()
 	sys.Unlock()
 
-	if builder.GetGlobalQuantityLimit() != 0 {
+	defer func() {
+		sys.Lock()
+		delete(sys.registering, builder.GetID())
+		sys.Unlock()
+	}()
 
-		if builder.GetNodeUnique() {
-			for _, v := range sys.actoridmap {
-				if v.Type() == builder.GetType() {
-					return nil, fmt.Errorf("[barid.system] register unique type actor %v in %v", builder.GetType(), sys.nodeID)
-				}
-			}
-		}
+	if builder.GetGlobalQuantityLimit() != 0 {
 
 		cnt, err := sys.addressbook.GetActorTypeCount(ctx, builder.GetType())
 		if err != nil {
@@ -151,6 +160,21 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	return actor, nil
 }
 
+// hasType reports whether an actor of the type runs or is being registered on this node, sys must be locked
+func (sys *NormalSystem) hasType(ty string) bool {
+	for _, v := range sys.actoridmap {
+		if v.Type() == ty {
+			return true
+		}
+	}
+	for _, v := range sys.registering {
+		if v == ty {
+			return true
+		}
+	}
+	return false
+}
+
 func (sys *NormalSystem) Unregister(id, ty string) error {
 	// First, check if the actor exists and get it
 	log.InfoF("braid.system unregister actor id %v node %v ty %v", id, sys.addressbook.NodeID, ty)
-- 
2.43.0


From 6fbab377cebfddb402cf86ecc918ff3eb8f2f90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:24 +0000
Subject: [PATCH 06/27] fix: listing actors and shutting a node down raced with
 registrations

---
 core/node/system_impl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 63fbc8f..e6640e5 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -211,6 +211,9 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 }
 
 func (sys *NormalSystem) Actors() []core.IActor {
+	sys.RLock()
+	defer sys.RUnlock()
+
 	actors := []core.IActor{}
 	for _, v := range sys.actoridmap {
 		actors = append(actors, v)
@@ -498,7 +501,7 @@ func (sys *NormalSystem) Exit(wait *sync.WaitGroup) {
 		wait.Done()
 	}
 
-	for _, actor := range sys.actoridmap {
+	for _, actor := range sys.Actors() {
 		wait.Add(1)
 
 		go func(a core.IActor) {
-- 
2.43.0


From 9ef5002343728e6aa5dd2b0c32938ba40468188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:58 +0000
Subject: [PATCH 07/27] fix: cleaning a stale record crashed on unknown types
 and removed actors being registered

---
 core/node/system_impl.go | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index e6640e5..6e7f166 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -25,6 +25,7 @@ type NormalSystem struct {
 	addressbook *addressbook.AddressBook
 	actoridmap  map[string]core.IActor
 	registering map[string]string // id -> type of registrations in progress
+	cleanMu     sync.Mutex        // held while a stale record is removed
 	client      *grpc.Client
 	ps          *pubsub.Pubsub
 	acceptor    *Acceptor
@@ -120,6 +121,10 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	sys.registering[builder.GetID()] = builder.GetType()
 	sys.Unlock()
 
+	// a removal of a stale record of this id that is under way must not hit the new record
+	sys.cleanMu.Lock()
+	sys.cleanMu.Unlock() //nolint:staticcheck
+
 	defer func() {
 		sys.Lock()
 		delete(sys.registering, builder.GetID())
@@ -289,7 +294,7 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	}
 
 	if info.Ip == sys.nodeIP && info.Port == sys.nodePort {
-		if err := sys.addressbook.Unregister(mw.Ctx, info.ActorId, sys.factory.Get(actorType).Weight); err != nil {
+		if err := sys.cleanStale(mw.Ctx, info, actorType); err != nil {
 			log.WarnF("braid.system unregister stale actor record err actorTy %v actorID %v err %v", actorType, info.ActorId, err)
 		}
 		log.WarnF("braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up", actorType, info.ActorId, event)
@@ -317,6 +322,31 @@ func (sys *NormalSystem) findLocalOrWildcardActor(ctx context.Context, ty string
 	return nil, info, err
 }
 
+// cleanStale removes the address record of an actor that is not running on this node
+func (sys *NormalSystem) cleanStale(ctx context.Context, info core.AddressInfo, actorType string) error {
+	if info.ActorTy != "" {
+		actorType = info.ActorTy
+	}
+
+	ac := sys.factory.Get(actorType)
+	if ac == nil {
+		return fmt.Errorf("unknown actor type %v", actorType)
+	}
+
+	sys.cleanMu.Lock()
+	defer sys.cleanMu.Unlock()
+
+	sys.RLock()
+	_, running := sys.actoridmap[info.ActorId]
+	_, registering := sys.registering[info.ActorId]
+	sys.RUnlock()
+	if running || registering {
+		return fmt.Errorf("actor is being registered")
+	}
+
+	return sys.addressbook.Unregister(ctx, info.ActorId, ac.Weight)
+}
+
 func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 
 	root := mw.GetWg().Count() == 0
@@ -453,7 +483,7 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	}
 
 	if info.Ip == sys.nodeIP && info.Port == sys.nodePort {
-		if err := sys.addressbook.Unregister(mw.Ctx, info.ActorId, sys.factory.Get(actorType).Weight); err != nil {
+		if err := sys.cleanStale(mw.Ctx, info, actorType); err != nil {
 			log.WarnF("braid.system unregister stale actor record err actorTy %v actorID %v err %v", actorType, info.ActorId, err)
 		}
 		log.WarnF("braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up", actorType, info.ActorId, event)
-- 
2.43.0


From 2a1ffa9b6005399bc5e7bcae334e90fa90854c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:59 +0000
Subject: [PATCH 08/27] fix: publishing to a topic without local subscriber
 panicked and topic options were ignored

---
 core/node/system_impl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 6e7f166..48ac22c 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -502,11 +502,11 @@ func (sys *NormalSystem) handleRemoteSend(info core.AddressInfo, mw *msg.Wrapper
 }
 
 func (sys *NormalSystem) Pub(topic string, event string, body []byte) error {
-	return sys.ps.GetTopic(topic).Pub(context.TODO(), event, body)
+	return sys.ps.GetOrCreateTopic(topic).Pub(context.TODO(), event, body)
 }
 
 func (sys *NormalSystem) Sub(topic string, channel string, opts ...pubsub.TopicOption) (*pubsub.Channel, error) {
-	return sys.ps.GetOrCreateTopic(topic).Sub(context.TODO(), channel)
+	return sys.ps.GetOrCreateTopic(topic, opts...).Sub(context.TODO(), channel)
 }
 
 func (sys *NormalSystem) FindActor(ctx context.Context, id string) (core.IActor, error) {
-- 
2.43.0


From ce2d826bbc570b8b1c922e61a5508a8e7019b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:59 +0000
Subject: [PATCH 09/27] fix: a cleared node still resolved its own actors by id

---
 core/addressbook/addressbook_impl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 51de3bc..9bb4d53 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -377,5 +377,9 @@ func (ab *AddressBook) Clear(ctx context.Context) error {
 		return fmt.Errorf("failed to clear node data: %w", err)
 	}
 
+	ab.Lock()
+	ab.IDMap = make(map[string]bool)
+	ab.Unlock()
+
 	return nil
 }
-- 
2.43.0


From ff3d995f13d25f8bc4936202d5422f1cb6de113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 10/27] fix: the future returned by Then on a completed future
 never completed

---
 core/actor/actor_reenter_impl.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/actor/actor_reenter_impl.go b/core/actor/actor_reenter_impl.go
index e776c6b..51a2435 100644
--- a/core/actor/actor_reenter_impl.go
+++ b/core/actor/actor_reenter_impl.go
@@ -25,12 +25,16 @@ func (f *Future) Then(callback func(mw *msg.Wrapper)) core.IFuture {
 	f.mutex.Lock()
 	defer f.mutex.Unlock()
 
+	newFuture := NewFuture()
+
 	if f.IsCompleted() {
-		go callback(f.result)
-		return NewFuture()
+		go func() {
+			callback(f.result)
+			newFuture.Complete(f.result)
+		}()
+		return newFuture
 	}
 
-	newFuture := NewFuture()
 	f.callbacks = append(f.callbacks, func(mw *msg.Wrapper) {
 		callback(mw)
 		newFuture.Complete(mw)
-- 
2.43.0


From 1cb50235ef79df6f8899b50a944e19c10e739e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 11/27] fix: messages could arrive at a subscriber before their
 handler was registered

---
 core/actor/actor_runtime_impl.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index a3a7d9e..46f9625 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -35,6 +35,7 @@ type Runtime struct {
 	exitOnce     sync.Once
 	closeCh      chan struct{}
 	shutdownCh   chan struct{}
+	chainsMu     sync.RWMutex // guards chains
 	chains       map[string]core.IChain
 	recovery     RecoveryFunc
 
@@ -84,10 +85,21 @@ func (a *Runtime) Context() core.ActorContext {
 }
 
 func (a *Runtime) OnEvent(ev string, chainFunc func(ctx core.ActorContext) core.IChain) error {
+	a.chainsMu.RLock()
+	_, exists := a.chains[ev]
+	a.chainsMu.RUnlock()
+	if exists {
+		return fmt.Errorf("actor: repeat register event %v", ev)
+	}
+
+	chain := chainFunc(a.actorCtx)
+
+	a.chainsMu.Lock()
+	defer a.chainsMu.Unlock()
 	if _, exists := a.chains[ev]; exists {
 		return fmt.Errorf("actor: repeat register event %v", ev)
 	}
-	a.chains[ev] = chainFunc(a.actorCtx)
+	a.chains[ev] = chain
 	return nil
 }
 
@@ -182,10 +194,11 @@ func (a *Runtime) Sub(topic string, channel string, callback func(ctx core.Actor
 		return fmt.Errorf("failed to subscribe to topic %s: %w", topic, err)
 	}
 
-	ch.Arrived(a.q)
-
+	// messages may arrive as soon as the channel is attached to the queue
 	a.OnEvent(channel, callback)
 
+	ch.Arrived(a.q)
+
 	return nil
 }
 
@@ -386,7 +399,10 @@ func (a *Runtime) update() {
 					mw.GetWg().Done()
 				}()
 
-				if chain, ok := a.chains[mw.Req.Header.Event]; ok {
+				a.chainsMu.RLock()
+				chain, ok := a.chains[mw.Req.Header.Event]
+				a.chainsMu.RUnlock()
+				if ok {
 					err := chain.Execute(mw)
 					if err != nil {
 						log.WarnF("actor %v event %v execute err %v", a.Id, mw.Req.Header.Event, err)
-- 
2.43.0


From d1391f63d299f69631100e5e10e5bf178639f7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 12/27] fix: actor builder options leaked into the factory
 template

---
 core/actor/actor_build_impl.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/actor/actor_build_impl.go b/core/actor/actor_build_impl.go
index 149c101..cc7136e 100644
--- a/core/actor/actor_build_impl.go
+++ b/core/actor/actor_build_impl.go
@@ -31,8 +31,15 @@ func (p *ActorLoaderBuilder) WithType(ty string) core.IActorBuilder {
 
 func (p *ActorLoaderBuilder) WithOpt(key string, value string) core.IActorBuilder {
 	p.optionsMutex.Lock()
-	p.Options[key] = value
-	p.optionsMutex.Unlock()
+	defer p.optionsMutex.Unlock()
+
+	// the map may be shared with the factory template and other builders
+	options := make(map[string]string, len(p.Options)+1)
+	for k, v := range p.Options {
+		options[k] = v
+	}
+	options[key] = value
+	p.Options = options
 	return p
 }
 
-- 
2.43.0


From 8afbb5e5d30bf1fa1548ecc82432cb38bbc83365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:01 +0000
Subject: [PATCH 13/27] fix: concurrent first calls to an address leaked
 connections

---
 lib/grpc/client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/grpc/client.go b/lib/grpc/client.go
index 0a12bd0..cffe810 100644
--- a/lib/grpc/client.go
+++ b/lib/grpc/client.go
@@ -140,7 +140,10 @@ func (c *Client) CallWait(ctx context.Context, addr, methon string, args, reply
 			return err
 		}
 
-		c.connmap.Store(addr, conn)
+		if mc, loaded := c.connmap.LoadOrStore(addr, conn); loaded {
+			conn.Close()
+			conn = mc.(*grpc.ClientConn)
+		}
 	}
 
 	if len(opts) != 0 {
-- 
2.43.0


From 7c46cddc7ee3b27e622a589ad0fd6bb7367e5718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:47 +0000
Subject: [PATCH 14/27] fix: tick tasks kept running after a stop, crashed when
 stopped early and doubled after a panic

---
 lib/timer/timer.go      | 45 +++++++++++++++++++++++++---------
 lib/timer/timer_tick.go | 54 +++++++++++++++++++++++++++++++----------
 2 files changed, 74 insertions(+), 25 deletions(-)

diff --git a/lib/timer/timer.go b/lib/timer/timer.go
index 08a6552..835228b 100644
--- a/lib/timer/timer.go
+++ b/lib/timer/timer.go
@@ -47,12 +47,12 @@ type TimerInfo struct {
 	isRun       bool
 	taskService *TimerService
 	mutex       sync.RWMutex
-	TimeTicker  *time.Ticker
 	TaskType    string
 	handler     TimerHandleFunc
 	context     *TimerContext
 	State       string
-	DueTime     int64 //开始任务的延迟时间（以毫秒为单位），如果<=0则不延迟
+	stopCh      chan struct{} // closed to end the goroutine of the current start
+	DueTime     int64         //开始任务的延迟时间（以毫秒为单位），如果<=0则不延迟
 }
 
 // Stop stop task
@@ -60,8 +60,12 @@ func (task *TimerInfo) stop() {
 	if !task.isRun {
 		return
 	}
+
+	task.mutex.Lock()
+	defer task.mutex.Unlock()
+
 	if task.State == Timer_state_run {
-		task.TimeTicker.Stop()
+		close(task.stopCh)
 		task.State = Timer_state_stop
 	}
 }
@@ -122,17 +126,36 @@ func Init() *TimerService {
 }
 
 func (ts *TimerService) StartAllTask() {
-	for _, v := range ts.taskMap {
+	for _, v := range ts.tasks() {
 		v.start()
 	}
 }
 
 func (ts *TimerService) StopAllTask() {
-	for _, v := range ts.taskMap {
+	for _, v := range ts.tasks() {
 		v.stop()
 	}
 }
 
+func (ts *TimerService) tasks() []Timer {
+	ts.taskMutex.RLock()
+	defer ts.taskMutex.RUnlock()
+
+	tasks := make([]Timer, 0, len(ts.taskMap))
+	for _, v := range ts.taskMap {
+		tasks = append(tasks, v)
+	}
+	return tasks
+}
+
+func (ts *TimerService) task(taskID string) (Timer, bool) {
+	ts.taskMutex.RLock()
+	defer ts.taskMutex.RUnlock()
+
+	v, ok := ts.taskMap[taskID]
+	return v, ok
+}
+
 func (ts *TimerService) NewTickTask(taskID string, isRun bool, dueTime int64, interval int64, handler TimerHandleFunc, taskData interface{}) (Timer, error) {
 	task, err := NewTickTimer(taskID, isRun, dueTime, interval, handler, taskData)
 	if err != nil {
@@ -156,22 +179,20 @@ func (service *TimerService) RemoveTask(taskID string) {
 }
 
 func (ts *TimerService) StopTask(taskID string) {
-	if _, ok := ts.taskMap[taskID]; !ok {
-		return
+	if v, ok := ts.task(taskID); ok {
+		v.stop()
 	}
-	ts.taskMap[taskID].stop()
 }
 
 func (ts *TimerService) StartTask(taskID string) {
-	if _, ok := ts.taskMap[taskID]; !ok {
-		return
+	if v, ok := ts.task(taskID); ok {
+		v.start()
 	}
-	ts.taskMap[taskID].start()
 }
 
 func (ts *TimerService) Stop(name string) error {
 
-	if v, ok := ts.taskMap[name]; ok {
+	if v, ok := ts.task(name); ok {
 		v.stop()
 		return nil
 	}
diff --git a/lib/timer/timer_tick.go b/lib/timer/timer_tick.go
index e244eb8..1533462 100644
--- a/lib/timer/timer_tick.go
+++ b/lib/timer/timer_tick.go
@@ -52,11 +52,9 @@ func startTickTask(task *TimerTask) {
 		defer func() {
 			if err := recover(); err != nil {
 				//task.taskService.Logger().Debug(task.TaskID, " loop handler recover error => ", err)
-				if task.taskService.ExceptionHandler != nil {
+				if task.taskService != nil && task.taskService.ExceptionHandler != nil {
 					task.taskService.ExceptionHandler(task.Context(), fmt.Errorf("%v", err))
 				}
-				//goroutine panic, restart cron task
-				startTickTask(task)
 			}
 		}()
 		if task.taskService != nil && task.taskService.OnBeforeHandler != nil {
@@ -76,19 +74,49 @@ func startTickTask(task *TimerTask) {
 			task.taskService.OnEndHandler(task.Context())
 		}
 	}
-	dofunc := func() {
-		task.TimeTicker = time.NewTicker(time.Duration(task.Interval) * time.Millisecond)
+	stopCh := make(chan struct{})
+	task.stopCh = stopCh
+
+	stopped := func() bool {
+		select {
+		case <-stopCh:
+			return true
+		default:
+			return false
+		}
+	}
+
+	go func() {
+		//等待设定的延时毫秒
+		if task.DueTime > 0 {
+			due := time.NewTimer(time.Duration(task.DueTime) * time.Millisecond)
+			defer due.Stop()
+
+			select {
+			case <-due.C:
+			case <-stopCh:
+				return
+			}
+		}
+		if stopped() {
+			return
+		}
+
+		ticker := time.NewTicker(time.Duration(task.Interval) * time.Millisecond)
+		defer ticker.Stop()
+
 		handler()
 		for {
-			<-task.TimeTicker.C
+			select {
+			case <-ticker.C:
+			case <-stopCh:
+				return
+			}
+			if stopped() {
+				return
+			}
 			handler()
 		}
-	}
-	//等待设定的延时毫秒
-	if task.DueTime > 0 {
-		go time.AfterFunc(time.Duration(task.DueTime)*time.Millisecond, dofunc)
-	} else {
-		go dofunc()
-	}
+	}()
 
 }
-- 
2.43.0


From 0ab9db3720a87d9a3e3e0fb1c785c553f130685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:48 +0000
Subject: [PATCH 15/27] fix: entity versions registered out of order were
 skipped

---
 core/entity.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/entity.go b/core/entity.go
index 02be84d..2aa9ce3 100644
--- a/core/entity.go
+++ b/core/entity.go
@@ -35,6 +35,9 @@ var verRMu sync.RWMutex
 
 // RegisterVersionStrategy 注册entity版本变更执行的策略函数
 func RegisterVersionStrategy(s VerStrategy) {
+	verRMu.Lock()
+	defer verRMu.Unlock()
+
 	verList = append(verList, s)
 }
 
@@ -56,14 +59,15 @@ func GetNextVersion(ver int) int {
 	verRMu.RLock()
 	defer verRMu.RUnlock()
 
+	// 保持不变
+	next := ver
 	for _, v := range verList {
-		if v.Version > ver {
-			return v.Version
+		if v.Version > ver && (next == ver || v.Version < next) {
+			next = v.Version
 		}
 	}
 
-	// 保持不变
-	return ver
+	return next
 }
 
 type VerStrategy struct {
-- 
2.43.0


From a7e0bbdb9ae726709bb21912cc63f893c67f5b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:55 +0000
Subject: [PATCH 16/27] fix: sends to actors on other nodes always failed

---
 core/node/system_impl.go | 21 ++++++++++++++++-----
 lib/grpc/client.go       | 23 +++++++++++++++++++----
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 48ac22c..865bec2 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -7,6 +7,7 @@ import (
 	"sync"
 	"time"
 
+	"github.com/gogo/protobuf/proto"
 	"github.com/opentracing/opentracing-go"
 	"github.com/pojol/braid/core"
 	"github.com/pojol/braid/core/addressbook"
@@ -494,11 +495,21 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 }
 
 func (sys *NormalSystem) handleRemoteSend(info core.AddressInfo, mw *msg.Wrapper) error {
-	return sys.client.Call(mw.Ctx,
-		fmt.Sprintf("%s:%d", info.Ip, info.Port),
-		"/router.Acceptor/routing",
-		&router.RouteReq{Msg: mw.Req},
-		nil) // We don't need the response for Send
+	addr := fmt.Sprintf("%s:%d", info.Ip, info.Port)
+	if err := sys.client.Connect(addr); err != nil {
+		return err
+	}
+
+	// the acceptor answers when the handler has finished, Send does not wait for that
+	ctx := context.WithoutCancel(mw.Ctx)
+	req := &router.RouteReq{Msg: proto.Clone(mw.Req).(*router.Message)}
+	go func() {
+		if err := sys.client.Call(ctx, addr, "/router.Acceptor/routing", req, &router.RouteRes{}); err != nil {
+			log.WarnF("braid.system remote send id %v addr %v err %v", req.Msg.Header.TargetActorID, addr, err)
+		}
+	}()
+
+	return nil
 }
 
 func (sys *NormalSystem) Pub(topic string, event string, body []byte) error {
diff --git a/lib/grpc/client.go b/lib/grpc/client.go
index cffe810..3e9258c 100644
--- a/lib/grpc/client.go
+++ b/lib/grpc/client.go
@@ -127,17 +127,20 @@ func (c *Client) getConn(address string) (*grpc.ClientConn, error) {
 	return conn, nil
 }
 
-func (c *Client) CallWait(ctx context.Context, addr, methon string, args, reply interface{}, opts ...interface{}) error {
-
-	var grpcopts []grpc.CallOption
+// Connect makes sure that there is a connection object for the address (it does not wait for the peer)
+func (c *Client) Connect(addr string) error {
+	_, err := c.connect(addr)
+	return err
+}
 
+func (c *Client) connect(addr string) (*grpc.ClientConn, error) {
 	conn, err := c.getConn(addr)
 	if err != nil {
 		// try create
 		conn, err = c.newconn(addr)
 		if err != nil {
 			fmt.Printf("[braid.client] client get conn warning %s", err.Error())
-			return err
+			return nil, err
 		}
 
 		if mc, loaded := c.connmap.LoadOrStore(addr, conn); loaded {
@@ -146,6 +149,18 @@ func (c *Client) CallWait(ctx context.Context, addr, methon string, args, reply
 		}
 	}
 
+	return conn, nil
+}
+
+func (c *Client) CallWait(ctx context.Context, addr, methon string, args, reply interface{}, opts ...interface{}) error {
+
+	var grpcopts []grpc.CallOption
+
+	conn, err := c.connect(addr)
+	if err != nil {
+		return err
+	}
+
 	if len(opts) != 0 {
 		for _, v := range opts {
 			callopt, ok := v.(grpc.CallOption)
-- 
2.43.0


From 7c012a588321aceabf295918ff2593bf2404dca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:56 +0000
Subject: [PATCH 17/27] fix: a call that failed on another node was reported as
 successful

---
 core/node/system_acceptor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/node/system_acceptor.go b/core/node/system_acceptor.go
index 9ebff79..fc0cc40 100644
--- a/core/node/system_acceptor.go
+++ b/core/node/system_acceptor.go
@@ -105,8 +105,12 @@ func (s *listen) Routing(ctx context.Context, req *router.RouteReq) (*router.Rou
 		req.Msg.Header.TargetActorType,
 		req.Msg.Header.Event, routermsg)
 
+	if err == nil {
+		err = routermsg.Err // e.g. the call timed out
+	}
 	if err != nil {
 		log.InfoF("listen routing %v err %v", req.Msg.Header.Event, err.Error())
+		return nil, err
 	}
 
 	res.Msg = routermsg.Res
-- 
2.43.0


From cc16b58f76b9b57f02b4289a9f530beef980c187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:36 +0000
Subject: [PATCH 18/27] fix: a message read by one channel of a topic was
 deleted for the other channels

---
 lib/pubsub/ps_channel.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/lib/pubsub/ps_channel.go b/lib/pubsub/ps_channel.go
index 751eae7..83ff30c 100644
--- a/lib/pubsub/ps_channel.go
+++ b/lib/pubsub/ps_channel.go
@@ -2,6 +2,8 @@ package pubsub
 
 import (
 	"context"
+	"strconv"
+	"strings"
 	"sync/atomic"
 	"time"
 
@@ -103,7 +105,9 @@ func (c *Channel) addHandlers(queue *mpsc.Queue) {
 			queue.Push(mb)
 
 			pipe.XAck(context.TODO(), c.topic, c.channel, recvmsg.Header.ID)
-			pipe.XDel(context.TODO(), c.topic, recvmsg.Header.ID)
+			if c.readByAll(recvmsg.Header.ID) {
+				pipe.XDel(context.TODO(), c.topic, recvmsg.Header.ID)
+			}
 
 			_, err := pipe.Exec(context.TODO())
 			if err != nil {
@@ -115,6 +119,39 @@ func (c *Channel) addHandlers(queue *mpsc.Queue) {
 	}()
 }
 
+// readByAll reports whether every channel of the topic has read the message, so that it can be deleted
+func (c *Channel) readByAll(id string) bool {
+	groups, err := thdredis.XInfoGroups(context.TODO(), c.topic).Result()
+	if err != nil {
+		log.WarnF("topic %v channel %v info groups failed: %v", c.topic, c.channel, err)
+		return false
+	}
+
+	for _, g := range groups {
+		if streamIDLess(g.LastDeliveredID, id) {
+			return false
+		}
+	}
+	return true
+}
+
+// streamIDLess compares two redis stream ids of the form ms-seq
+func streamIDLess(a, b string) bool {
+	ams, aseq := parseStreamID(a)
+	bms, bseq := parseStreamID(b)
+	if ams != bms {
+		return ams < bms
+	}
+	return aseq < bseq
+}
+
+func parseStreamID(id string) (ms, seq uint64) {
+	mspart, seqpart, _ := strings.Cut(id, "-")
+	ms, _ = strconv.ParseUint(mspart, 10, 64)
+	seq, _ = strconv.ParseUint(seqpart, 10, 64)
+	return ms, seq
+}
+
 func (c *Channel) Arrived(queue *mpsc.Queue) {
 	c.addHandlers(queue)
 }
-- 
2.43.0


From fa2fd0eca93882d5758c4a99ed650f2bcece60fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:37 +0000
Subject: [PATCH 19/27] fix: stopped subscribers went on taking messages of
 their channel

---
 core/actor/actor_runtime_impl.go | 15 +++++++++++
 lib/pubsub/ps_channel.go         | 46 +++++++++++++++++++++++++-------
 2 files changed, 51 insertions(+), 10 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 46f9625..64c46f5 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -39,6 +39,9 @@ type Runtime struct {
 	chains       map[string]core.IChain
 	recovery     RecoveryFunc
 
+	subsMu sync.Mutex // guards subs
+	subs   []*pubsub.Channel
+
 	timersMu  sync.Mutex // guards timers
 	timers    map[core.ITimer]struct{}
 	timerChan chan core.ITimer
@@ -199,6 +202,10 @@ func (a *Runtime) Sub(topic string, channel string, callback func(ctx core.Actor
 
 	ch.Arrived(a.q)
 
+	a.subsMu.Lock()
+	a.subs = append(a.subs, ch)
+	a.subsMu.Unlock()
+
 	return nil
 }
 
@@ -435,6 +442,14 @@ func (a *Runtime) update() {
 func (a *Runtime) Exit() {
 	log.DebugF("[braid.actor] %s exiting state %v remaining msg %v", a.Id, atomic.LoadInt32(&a.closed), a.q.Count())
 	a.exitOnce.Do(func() {
+		// stop taking messages, those already taken are in the queue afterwards
+		a.subsMu.Lock()
+		subs := a.subs
+		a.subsMu.Unlock()
+		for _, ch := range subs {
+			ch.Stop()
+		}
+
 		close(a.shutdownCh) // 发送关闭信号
 	})
 	<-a.closeCh // 等待所有消息处理完毕
diff --git a/lib/pubsub/ps_channel.go b/lib/pubsub/ps_channel.go
index 83ff30c..04536f4 100644
--- a/lib/pubsub/ps_channel.go
+++ b/lib/pubsub/ps_channel.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"strconv"
 	"strings"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -23,6 +24,8 @@ type Channel struct {
 	consumer string // group consumer
 
 	exitFlag int32
+	loopDone chan struct{} // closed when the loop has ended, nothing is put into msgCh any more
+	handlers sync.WaitGroup
 	msgCh    *unbounded.Unbounded
 }
 
@@ -32,6 +35,7 @@ func newChannel(ctx context.Context, topic, channel string, p ChannelParm) (*Cha
 		topic:    topic,
 		channel:  channel,
 		consumer: uuid.New().String(),
+		loopDone: make(chan struct{}),
 		msgCh:    unbounded.NewUnbounded(),
 	}
 
@@ -40,6 +44,11 @@ func newChannel(ctx context.Context, topic, channel string, p ChannelParm) (*Cha
 	if err != nil && err.Error() != "BUSYGROUP Consumer Group name already exists" {
 		return nil, err
 	}
+
+	// a group with a consumer is not destroyed when another subscriber leaves
+	if err := thdredis.GetClient().XGroupCreateConsumer(ctx, topic, c.channel, c.consumer).Err(); err != nil {
+		return nil, err
+	}
 	c.loop()
 
 	return c, nil
@@ -47,7 +56,9 @@ func newChannel(ctx context.Context, topic, channel string, p ChannelParm) (*Cha
 
 func (c *Channel) loop() {
 	go func() {
-		for {
+		defer close(c.loopDone)
+
+		for atomic.LoadInt32(&c.exitFlag) == 0 {
 			msgs := thdredis.XReadGroup(context.TODO(), &redis.XReadGroupArgs{
 				Group:    c.channel,
 				Consumer: c.consumer,
@@ -61,11 +72,6 @@ func (c *Channel) loop() {
 
 					val := msg.Values["msg"].(string)
 
-					if atomic.LoadInt32(&c.exitFlag) == 1 {
-						log.WarnF("cannot write to the exiting channel %v", c.channel)
-						return
-					}
-
 					msg := &router.Message{
 						Header: &router.Header{
 							ID:    msg.ID,
@@ -82,12 +88,20 @@ func (c *Channel) loop() {
 }
 
 func (c *Channel) addHandlers(queue *mpsc.Queue) {
+	c.handlers.Add(1)
 	go func() {
+		defer c.handlers.Done()
 
 		for {
-			m, ok := <-c.msgCh.Get()
-			if !ok {
-				goto EXT
+			var m interface{}
+			select {
+			case m = <-c.msgCh.Get():
+			case <-c.loopDone:
+				select {
+				case m = <-c.msgCh.Get():
+				default:
+					goto EXT
+				}
 			}
 			c.msgCh.Load()
 
@@ -156,11 +170,23 @@ func (c *Channel) Arrived(queue *mpsc.Queue) {
 	c.addHandlers(queue)
 }
 
-func (c *Channel) Close() error {
+// Stop ends the consumption of messages, those already taken are handed over before it returns
+func (c *Channel) Stop() error {
+	atomic.StoreInt32(&c.exitFlag, 1)
+	<-c.loopDone
+	c.handlers.Wait()
 
 	_, err := thdredis.XGroupDelConsumer(context.TODO(), c.topic, c.channel, c.consumer).Result()
 	if err != nil {
 		log.WarnF("braid.pubsub topic %v channel %v redis channel del consumer err %v", c.topic, c.channel, err.Error())
+	}
+
+	return err
+}
+
+func (c *Channel) Close() error {
+
+	if err := c.Stop(); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 89c5eea380ef9fa405fef6468658d2d8a0b5afb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:51 +0000
Subject: [PATCH 20/27] fix: adding custom fields to a message set from a nil
 map panicked

---
 router/msg/msg_custom_map.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/router/msg/msg_custom_map.go b/router/msg/msg_custom_map.go
index f52f8e2..3adfa75 100644
--- a/router/msg/msg_custom_map.go
+++ b/router/msg/msg_custom_map.go
@@ -22,6 +22,9 @@ func (b *MsgBuilder) WithReqCustomFields(attrs ...Attr) *MsgBuilder {
 			b.wrapper.Err = fmt.Errorf("unmarshal existing custom fields failed: %w", err)
 			return b
 		}
+		if data == nil { // the existing fields were set from a nil map
+			data = make(map[string]any, len(attrs))
+		}
 	}
 
 	for _, attr := range attrs {
@@ -51,6 +54,9 @@ func (b *MsgBuilder) WithResCustomFields(attrs ...Attr) *MsgBuilder {
 			b.wrapper.Err = fmt.Errorf("unmarshal existing custom fields failed: %w", err)
 			return b
 		}
+		if data == nil { // the existing fields were set from a nil map
+			data = make(map[string]any, len(attrs))
+		}
 	}
 
 	for _, attr := range attrs {
-- 
2.43.0


From f2f5c361477aa12361ae6c254e2a5e49e9034262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:51 +0000
Subject: [PATCH 21/27] fix: a custom object that cannot be encoded wiped the
 custom fields of its message

---
 router/msg/map_custom_object.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/router/msg/map_custom_object.go b/router/msg/map_custom_object.go
index fefb8f0..8d6e0cd 100644
--- a/router/msg/map_custom_object.go
+++ b/router/msg/map_custom_object.go
@@ -7,6 +7,7 @@ func (b *MsgBuilder) WithReqCustomObject(v any) *MsgBuilder {
 	byt, err := b.wrapper.parm.CustomObjSerialize.Encode(v)
 	if err != nil {
 		b.wrapper.Err = fmt.Errorf("with req custom object encode err %v", err)
+		return b
 	}
 
 	b.wrapper.Req.Header.Custom = byt
@@ -18,6 +19,7 @@ func (b *MsgBuilder) WithResCustomObject(v any) *MsgBuilder {
 	byt, err := b.wrapper.parm.CustomObjSerialize.Encode(v)
 	if err != nil {
 		b.wrapper.Err = fmt.Errorf("with res custom object encode err %v", err)
+		return b
 	}
 
 	b.wrapper.Res.Header.Custom = byt
-- 
2.43.0


From 11669ac3171e13192f5d6c02ceb459ab878f372e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:31 +0000
Subject: [PATCH 22/27] fix: an id whose address record is already gone is no
 longer believed to be registered

AddressBook.Unregister left the id in the node's own map when somebody else had
removed the record, so the id could not be registered on that node again.
---
 core/addressbook/addressbook_impl.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 9bb4d53..8a8f37f 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -103,6 +103,11 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 	// get address info first
 	addrJSON, err := trdredis.HGet(ctx, def.RedisAddressbookIDField, id).Result()
 	if err != nil {
+		if err == redis.Nil {
+			ab.Lock()
+			delete(ab.IDMap, id) // the record was removed by somebody else
+			ab.Unlock()
+		}
 		return fmt.Errorf("address not found for id: %s", id)
 	}
 
@@ -118,6 +123,9 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 		return fmt.Errorf("addressbook.unregister hdel err %v", err.Error())
 	}
 	if removed == 0 {
+		ab.Lock()
+		delete(ab.IDMap, id)
+		ab.Unlock()
 		return fmt.Errorf("address not found for id: %s", id)
 	}
 
-- 
2.43.0


From 244c7cf5aefb08738ee30632591f144d33a5a1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:33 +0000
Subject: [PATCH 23/27] fix: registering over the record left by an earlier run
 of the node does not count its weight twice

---
 core/addressbook/addressbook_impl.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 8a8f37f..d73ad52 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -64,6 +64,13 @@ func (ab *AddressBook) Register(ctx context.Context, ty, id string, weight int)
 		Port:    ab.Port},
 	)
 
+	// a record this node left behind (e.g. before a restart) is taken over, its weight is counted already
+	old, err := trdredis.HGet(ctx, def.RedisAddressbookIDField, id).Result()
+	if err != nil && err != redis.Nil {
+		return fmt.Errorf("addressbook.register hget err %v", err.Error())
+	}
+	counted := err == nil && old == string(addrJSON)
+
 	// serialize node info to json (without ActorId and ActorTy)
 	nodeInfoJSON, _ := json.Marshal(core.AddressInfo{
 		Node: ab.NodeID,
@@ -80,10 +87,12 @@ func (ab *AddressBook) Register(ctx context.Context, ty, id string, weight int)
 	pipe.HSet(ctx, def.RedisAddressbookNodesField, ab.NodeID, nodeInfoJSON)
 
 	// 更新节点记录
-	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), fmt.Sprintf("actor:%s", ty), int64(weight))
-	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), "total_weight", int64(weight))
+	if !counted {
+		pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), fmt.Sprintf("actor:%s", ty), int64(weight))
+		pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), "total_weight", int64(weight))
+	}
 
-	_, err := pipe.Exec(ctx)
+	_, err = pipe.Exec(ctx)
 	if err != nil {
 		return fmt.Errorf("redis pipeline exec err %v", err.Error())
 	}
-- 
2.43.0


From 6d06ad7d576426fe4aa775b25cffa3149dad34b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:08 +0000
Subject: [PATCH 24/27] fix: registrations and removals of one node's address
 book do not interleave

---
 core/addressbook/addressbook_impl.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index d73ad52..66e8eaa 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -27,6 +27,8 @@ type AddressBook struct {
 
 	IDMap map[string]bool
 
+	opMu sync.Mutex // one registration or removal at a time
+
 	sync.RWMutex
 }
 
@@ -48,6 +50,9 @@ func (ab *AddressBook) Register(ctx context.Context, ty, id string, weight int)
 		return fmt.Errorf("actor id or type is empty")
 	}
 
+	ab.opMu.Lock()
+	defer ab.opMu.Unlock()
+
 	ab.RLock()
 	if _, ok := ab.IDMap[id]; ok {
 		ab.RUnlock()
@@ -109,6 +114,9 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 		return fmt.Errorf("actor id or type is empty")
 	}
 
+	ab.opMu.Lock()
+	defer ab.opMu.Unlock()
+
 	// get address info first
 	addrJSON, err := trdredis.HGet(ctx, def.RedisAddressbookIDField, id).Result()
 	if err != nil {
-- 
2.43.0


From 4300a2866aabecd4023d60233214a9b2140ce12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:17 +0000
Subject: [PATCH 25/27] fix: an actor registered again while its predecessor is
 being unregistered is not removed by it

---
 core/node/system_impl.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 865bec2..ef1ac6a 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -192,13 +192,25 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 	if exists {
 		// Call Exit on the actor
 		actor.Exit()
+	}
 
-		// Remove the actor from the map
-		sys.Lock()
-		delete(sys.actoridmap, id)
+	// Removed elsewhere and registered again meanwhile? Then the id belongs to the new actor
+	sys.cleanMu.Lock()
+	defer sys.cleanMu.Unlock()
+
+	sys.Lock()
+	current, running := sys.actoridmap[id]
+	_, registering := sys.registering[id]
+	if (running && (!exists || current != actor)) || (!running && registering) {
 		sys.Unlock()
+		log.InfoF("braid.system unregister actor id %s, it has been registered again", id)
+		return nil
 	}
 
+	// Remove the actor from the map
+	delete(sys.actoridmap, id)
+	sys.Unlock()
+
 	// Unregister from the address book
 	ac := sys.factory.Get(ty)
 	if ac == nil {
-- 
2.43.0


From e031ff7c98c2dfbf7d60ad780caa2fa70432db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:27 +0000
Subject: [PATCH 26/27] fix: create a topic's stream in one step, with its ttl
 in milliseconds

---
 lib/pubsub/ps_topic.go | 44 +++++++++++++++++-------------------------
 1 file changed, 18 insertions(+), 26 deletions(-)

diff --git a/lib/pubsub/ps_topic.go b/lib/pubsub/ps_topic.go
index 6c242b2..cfb02a3 100644
--- a/lib/pubsub/ps_topic.go
+++ b/lib/pubsub/ps_topic.go
@@ -21,6 +21,21 @@ type Topic struct {
 	channelMap map[string]*Channel
 }
 
+// createScript creates the stream if it does not exist. The entry needed to create it must never be
+// visible to a subscriber, so this is a single step.
+var createScript = redis.NewScript(`
+	if redis.call("EXISTS", KEYS[1]) == 1 then
+		return 0
+	end
+	local id = redis.call("XADD", KEYS[1], "*", "msg", "init", "event", "")
+	redis.call("XDEL", KEYS[1], id)
+	if tonumber(ARGV[1]) > 0 then
+		redis.call("PEXPIRE", KEYS[1], ARGV[1])
+	end
+	redis.call("SADD", KEYS[2], KEYS[1])
+	return 1
+`)
+
 func newTopic(name string, mgr *Pubsub, opts ...TopicOption) *Topic {
 
 	rt := &Topic{
@@ -36,32 +51,9 @@ func newTopic(name string, mgr *Pubsub, opts ...TopicOption) *Topic {
 		opt(options)
 	}
 
-	cnt, _ := thdredis.Exists(ctx, rt.topic).Result()
-	if cnt == 0 {
-		id, err := thdredis.XAdd(ctx, &redis.XAddArgs{
-			Stream: rt.topic,
-			Values: []string{"msg", "init", "event", ""},
-		}).Result()
-
-		if err != nil {
-			log.WarnF("[braid.pubsub ]Topic %v init failed %v", rt.topic, err)
-		} else {
-
-			thdredis.XDel(ctx, rt.topic, id)
-			if options.ttl > 0 {
-				err = thdredis.Expire(ctx, rt.topic, options.ttl).Err()
-				if err != nil {
-					log.WarnF("[braid.pubsub ]Failed to set TTL for topic %v: %v", rt.topic, err)
-				}
-			}
-
-			err = thdredis.SAdd(ctx, BraidPubsubTopic, rt.topic).Err()
-			if err != nil {
-				log.WarnF("[braid.pubsub] Failed to add topic %v to BraidPubsubTopic set: %v", rt.topic, err)
-			}
-
-		}
-
+	_, err := thdredis.ScriptRun(ctx, createScript, []string{rt.topic, BraidPubsubTopic}, options.ttl.Milliseconds())
+	if err != nil {
+		log.WarnF("[braid.pubsub ]Topic %v init failed %v", rt.topic, err)
 	}
 
 	return rt
-- 
2.43.0


From 7a0bebbd63eabead54d8d3eb3b8c5811e729d663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:11 +0000
Subject: [PATCH 27/27] fix: close a topic in one step, so that nothing
 published or subscribed meanwhile is lost

---
 lib/pubsub/ps_topic.go | 51 +++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 30 deletions(-)

diff --git a/lib/pubsub/ps_topic.go b/lib/pubsub/ps_topic.go
index cfb02a3..859d0b4 100644
--- a/lib/pubsub/ps_topic.go
+++ b/lib/pubsub/ps_topic.go
@@ -3,7 +3,6 @@ package pubsub
 import (
 	"context"
 	"fmt"
-	"strings"
 	"sync"
 
 	thdredis "github.com/pojol/braid/3rd/redis"
@@ -93,41 +92,33 @@ func (rt *Topic) Sub(ctx context.Context, channel string, opts ...interface{}) (
 	return c, err
 }
 
+// closeScript removes the topic if it has neither messages nor channels. One step, so that nothing
+// published or subscribed in between is lost.
+var closeScript = redis.NewScript(`
+	if redis.call("EXISTS", KEYS[1]) == 1 then
+		if redis.call("XLEN", KEYS[1]) > 0 or #redis.call("XINFO", "GROUPS", KEYS[1]) > 0 then
+			return 0
+		end
+	end
+	redis.call("DEL", KEYS[1])
+	redis.call("SREM", KEYS[2], KEYS[1])
+	return 1
+`)
+
 func (rt *Topic) Close() error {
 
-	ctx := context.Background()
-	groups, err := thdredis.XInfoGroups(ctx, rt.topic).Result()
-	if err != nil && err != redis.Nil {
-		// 忽略 "no such key" 错误
-		if !strings.Contains(err.Error(), "no such key") {
-			return fmt.Errorf("failed to get XInfoGroups: %w", err)
-		}
-		groups = []redis.XInfoGroup{} // 设置为空切片
-		err = nil
+	cleaned, err := thdredis.ScriptRun(context.Background(), closeScript, []string{rt.topic, BraidPubsubTopic})
+	if err != nil {
+		return fmt.Errorf("failed to clean topic %s: %w", rt.topic, err)
 	}
 
-	if len(groups) == 0 {
-		cnt, err := thdredis.XLen(ctx, rt.topic).Result()
-		if err != nil && err != redis.Nil {
-			return fmt.Errorf("failed to get XLen: %w", err)
-		}
-
-		if cnt == 0 {
-			cleanpipe := thdredis.Pipeline()
-			cleanpipe.Del(ctx, rt.topic)
-			cleanpipe.SRem(ctx, BraidPubsubTopic, rt.topic)
-
-			_, err = cleanpipe.Exec(ctx)
-			if err != nil {
-				return fmt.Errorf("failed to clean topic %s: %w", rt.topic, err)
-			}
-			log.InfoF("[braid.pubsub] Topic %v cleaned successfully", rt.topic)
-		} else {
-			log.InfoF("[braid.pubsub] Topic %v not cleaned: non-empty stream", rt.topic)
-		}
+	if cleaned == int64(1) {
+		log.InfoF("[braid.pubsub] Topic %v cleaned successfully", rt.topic)
+	} else {
+		log.InfoF("[braid.pubsub] Topic %v not cleaned: it has channels or a non-empty stream", rt.topic)
 	}
 
-	return err
+	return nil
 }
 
 func (rt *Topic) getOrCreateChannel(ctx context.Context, name string, p ChannelParm) (*Channel, error) {
-- 
2.43.0

