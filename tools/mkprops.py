#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

RT = "core/actor/actor_runtime_impl.go"; SYS = "core/node/system_impl.go"; AB = "core/addressbook/addressbook_impl.go"
# ------------------------------------------------------------------ actors
p("A01", "An actor never runs two pieces of its own code at once",
  "For every actor, its event handlers (with their before/after middleware) and its timer callbacks execute one at a time: no two of them ever overlap, whatever mixture of local senders, remote callers, subscriptions and timers triggers them.",
  ["schedules", "programs"], "all interleavings of any number of senders, timers and re-entrant replies addressed to one actor",
  "the tests send from one goroutine and never look for overlap; overlap needs concurrent triggers and a handler that is still running",
  [RT, "lib/mpsc/mpsc.go"], [("single consumer loop", RT + " update"), ("timer callbacks funnelled through the loop", RT + " OnTimer/timerChan")],
  observe=["entry and exit of user handlers and timer callbacks"])
p("A02", "Every accepted message is handled exactly once, in order",
  "A message accepted by a live actor (the send/call was not refused) is handled exactly once by that actor, without needing any later message to arrive; if one message's send had returned before another's to the same actor was started, the earlier one is handled first. A refused message is never handled.",
  ["schedules", "histories"], "every interleaving of concurrent senders with the actor's own progress, any backlog length",
  "a handful of sequential sends cannot exhibit a lost wake-up, a duplicate or a reordering, which need producers interleaved inside the queue operations",
  ["lib/mpsc/mpsc.go", RT], [("lock-free multi-producer queue and its wake-up channel", "lib/mpsc/mpsc.go"), ("mailbox loop", RT + " update"), ("acceptance", RT + " Received")],
  observe=["return of Call/Send", "handler entry"])
p("A03", "A failing handler harms neither its actor nor its caller",
  "When a before-middleware, handler, after-middleware or timer callback panics or returns an error, the actor goes on handling every other message and timer, other actors and the process are unaffected, and a caller waiting for the failed message is released as soon as that message is finished rather than at the timeout.",
  ["fault_sequences", "programs"], "panics and errors at every position of any sequence of messages and timer firings, at any depth of a call chain",
  "no test makes a handler panic or checks what the next message or the waiting caller sees afterwards",
  [RT, SYS], [("recover around each message and timer", RT + " update"), ("completion released in a deferred call", RT + " update")],
  observe=["handler entry/exit", "return of Call", "process liveness"])
p("A04", "Actor shutdown drains what was accepted and then stays silent",
  "When an actor is stopped (Exit or Unregister), every message it accepted is handled before the stop returns (unless draining is cut off by the 10 s limit), later messages are refused with an error, and once the stop has returned no handler or timer callback of that actor is running or ever runs again. Stopping an actor repeatedly or from several goroutines is harmless, and every one of those stops returns only after the actor has stopped.",
  ["schedules", "histories"], "stop requests placed at every point relative to concurrent sends, a running handler, queued messages and timers, with any number of concurrent stops",
  "tests only exit idle actors at the end; the windows between accepting, popping and finishing a message and the shutdown are never hit",
  [RT, SYS], [("closed flag and shutdown/close channels", RT + " Exit/update/Received"), ("local removal", SYS + " Unregister")],
  observe=["return of Exit/Unregister", "return of Call/Send", "handler and timer entry/exit"])
p("A05", "A root call returns once its whole call tree is done, and not before",
  "A Call made outside any handler returns without error only after the handler of its message, and of every message that handler (transitively) called or sent using the same context on that node, has finished; and it returns as soon as that is so, without waiting for the timeout.",
  ["schedules", "programs"], "every shape of nested call tree over any actors and every interleaving of their handlers",
  "the tests use one chain of fixed shape and do not observe the order of completion",
  [SYS, RT, "lib/warpwaitgroup/warpwaitgroup.go", "router/msg/msg.go"], [("wait group carried in the context", "router/msg/msg.go NewBuilder/GetWg"), ("root detection and wait", SYS + " localCall")],
  observe=["return of the root Call", "handler exits"])
p("A06", "Every local call returns in bounded time and a failure is visible",
  "A local Call to an actor returns within 5 seconds (the system call timeout), or earlier when its own context is cancelled or its deadline passes, however long the called handlers take. Whenever it returns before its call tree has finished, the caller can see it: Call returns an error or the message's Err is set; when the tree finished in time and nothing failed, neither is set.",
  ["schedules", "fault_sequences", "programs"], "any handler duration (including never finishing), any cancellation instant and deadline, any number of concurrent calls",
  "tests cover one timeout with a deadline; they do not cross cancellation, timeout and completion instants",
  [SYS], [("call timeout and context cancellation", SYS + " localCall")], observe=["return instant and result of Call, message Err"])
p("A07", "A call that comes back to its originator is refused, not deadlocked",
  "A message is never queued at the actor recorded as its originator: when an actor calls itself, directly or through any chain of actors forwarding the message on, the returning call fails immediately with an error, and no actor or caller blocks because of the cycle.",
  ["programs"], "cycles of every length through any actors, by id or by symbol, local",
  "only one fixed call pattern is tested, none cyclic",
  [RT, SYS], [("original sender recorded once", RT + " Call"), ("self-call refusal", RT + " Received")], observe=["result of Call", "handler entry"])
p("A08", "A re-entrant call never blocks its actor and completes exactly once",
  "ReenterCall returns at once and its actor keeps handling other messages while the reply is outstanding; its future completes exactly once, with the callee's response if the call succeeded, and with an error if the call failed, timed out or its context ended first. Once the callee has finished and the calling actor is idle, the future is complete.",
  ["schedules", "fault_sequences"], "every order of reply, cancellation, timeout, failing callee and other messages at the calling actor",
  "tests run two fixed sequences with seconds of slack and check only the final value",
  [RT, "core/actor/actor_reenter_impl.go", "router/msg/msg.go"], [("asynchronous call and re-entry queue", RT + " ReenterCall")], observe=["ReenterCall return", "future completion and its message"])
p("A09", "Future continuations run exactly once, in chain order, with the result",
  "However Then and Complete interleave, every callback attached to a future runs exactly once with the first value the future was completed with, whether it was attached before or after completion; a future returned by Then completes with that value after its callback has run. Later completions change nothing.",
  ["schedules", "histories"], "every interleaving of any number of Then, Complete and IsCompleted calls, any chain shape",
  "tests attach callbacks before completion only and never complete twice",
  ["core/actor/actor_reenter_impl.go"], [("completion state and callback list under one lock", "core/actor/actor_reenter_impl.go")], observe=["callback invocations", "IsCompleted"])
p("A10", "Actor timers fire on schedule and never after they are cancelled",
  "A timer registered with due time d and interval i first fires d ms after registration (after one interval when d is 0) and then every i ms; with interval 0 it fires exactly once. A firing is delayed only while its actor is busy and is not lost (unless more than 1000 firings of an actor pile up), and once a timer has been cancelled from its actor, or its actor has stopped, it never fires again, even if a firing was already pending. Creating, cancelling, stopping and resetting timers, in handlers, callbacks or elsewhere, return at once.",
  ["schedules", "configurations", "histories"], "every combination of due time and interval including zero, cancellation or stop in every phase of the timer, any number of timers, busy actors",
  "the timer tests take wall-clock seconds, use loose bounds, and abort on interval 0 on the original code",
  [RT, "core/actor/actor_timer.go"], [("timer goroutine and channel", RT + " OnTimer"), ("cancellation", RT + " CancelTimer; core/actor/actor_timer.go Stop")], observe=["timer callback entry instants"])
p("A11", "Events run their before, handler, after steps in order, once each",
  "Handling a message runs the before steps in order, then the handler, then the after steps in order of the chain registered for exactly that event, stopping at the first step that returns an error. A second registration of an event is refused and leaves the first in force; a message whose event has no registration runs nothing and still releases its caller. Events may also be registered while the actor is running; they then apply to every message handled afterwards.",
  ["programs", "inputs"], "every chain length, failing position and sequence of registrations and events",
  "tests register one handler per event without middleware or duplicates",
  ["core/actor/actor_chain.go", RT], [("chain execution", "core/actor/actor_chain.go Execute"), ("event registry", RT + " OnEvent/update")], observe=["order of user functions"])
p("X01", "An actor's context acts for that actor on its own node, and remembers",
  "The context an actor's handlers are given names that actor (id and type) and its own node's system, address book and loader; what a handler calls, sends, registers or unregisters through it is done by that actor from that node, with the actor recorded as the caller of its calls. A value stored in it under a key is what every later handler of the same actor reads under that key, until another is stored, and is never seen by another actor or by a later actor registered under the same id; keys never stored read as nil.",
  ["programs", "histories"], "every sequence of handlers storing, reading, calling, registering and unregistering through their contexts, on several actors and nodes",
  "no test stores a value in a context or uses it for anything but calls and sends",
  ["core/actor/actor_context_impl.go", RT], [("context carrying the actor and its system", RT + " Init"), ("operations through the context", "core/actor/actor_context_impl.go")], observe=["results of the context's methods inside handlers"])
# ------------------------------------------------------------------ registry
p("R01", "The address book's views agree on every node with what is registered",
  "Once no registration, unregistration or node shutdown is in progress, every node finds each registered actor by id at the node, ip and port that registered it, lists it exactly once under its type, and counts it; an actor that is not registered (never, no longer, or because its registration failed) is found by id, type or count on no node. A node's own list of actors (Actors, FindActor) holds exactly the actors registered there and not removed since. Registrations, removals and shutdowns end. This holds across any sequence of registrations, unregistrations and re-registrations on several nodes, concurrent ones included, as long as an id is only wanted by one node at a time.",
  ["histories", "fault_sequences", "schedules"], "every history of register/unregister/re-register/shutdown over several nodes, ids and types, with failing redis commands and concurrent operations",
  "the tests register each actor once and only look at placement",
  [AB, SYS], [("id hash, type sets written together", AB + " Register/Unregister"), ("lookups", AB + " GetByID/GetByType/GetActorTypeCount")],
  state=[("braid.addressbook.id", "hash id -> address", AB), ("braid.addressbook.ty.<type>", "set of addresses", AB)])
p("R02", "A node's recorded weight is the sum of its registered actors' weights",
  "Once no registration activity is in progress, the total weight recorded for each node, and its per-type weight, equal the sum of the weights of the records it has (those of its registered actors, and those a crash left behind until they are removed); refused or failed registrations, repeated, concurrent or stale removals, re-registrations, and registering again over the record of an earlier run never make it drift.",
  ["histories", "schedules", "fault_sequences"], "every history of registrations and removals of any weights over several nodes, including concurrent removal of one record and removal by another node",
  "tests never compare weights; drift needs repeated or concurrent removals",
  [AB, SYS], [("weight increments in the same pipeline", AB + " Register/Unregister")], state=[("{node:<id>}", "hash total_weight, actor:<type>", AB)])
p("R03", "Placement picks a node with the lowest recorded weight",
  "With a stable registry, the low-weight node lookup returns a registered node whose recorded weight is minimal among all registered nodes; the any-actor ('?') lookup returns a registered actor of the requested type and, when at most ten actors of that type exist, one on a minimal-weight node among those hosting the type. With no candidate they return an error.",
  ["configurations", "inputs"], "every assignment of weights (ties, zero, negative, large, decreasing) to any number of nodes and actors",
  "the tests count placements with a tolerance of one random run; a wrong or noisy choice still passes",
  [AB], [("minimum scan", AB + " GetLowWeightNodeForActor/GetWildcardActor")])
p("R04", "Registration rules are enforced and refusals leave no trace",
  "On one node an id is registered at most once at a time, even under concurrent registrations, and a type marked node-unique has at most one live actor per node; a registration that begins when its type's global limit is already reached is refused. A refused registration constructs no actor and leaves the registry exactly as it was; after an unregistration the id, the node-unique slot and the quota are free again.",
  ["schedules", "histories", "configurations"], "every interleaving of concurrent registrations, every combination of limit and uniqueness options, any history",
  "tests register distinct ids one after another and set no limit that is reached",
  [SYS, AB], [("duplicate, uniqueness and limit checks", SYS + " Register")])
p("R05", "Node shutdown removes all of the node's records and nobody else's",
  "When a node shuts down, all of its actors are stopped, and afterwards no lookup on any node returns any of its actors or the node itself and its weight is gone; records, counts and weights of every other node are untouched. This includes records left by an earlier run of the node that did not shut down. The same node can come back and register again.",
  ["histories", "configurations"], "every registry content over several nodes sharing types, ids with unusual characters, repeated shutdown and restart",
  "tests exit nodes only to clean up and never check what remains",
  [AB, SYS], [("clear by node", AB + " Clear"), ("system exit", SYS + " Exit")])
p("R06", "A stale record pointing to the local node is reported and removed",
  "When a call or send by id or symbol resolves to a registry record of the caller's own node for which no actor is running, it returns an error instead of delivering, hanging or crashing, and, if the node knows the record's actor type, the record and its weight are removed so that later lookups no longer return it; live actors' records are never removed this way, even while they are still being registered.",
  ["histories", "schedules", "fault_sequences"], "every way a record can be stale (lost reply, crash and restart) and every type, known or unknown to the node, with concurrent callers",
  "no test creates a stale record",
  [SYS, AB], [("stale detection and clean-up", SYS + " Call/Send")])
# ------------------------------------------------------------------ routing
p("N01", "A call by id reaches exactly that actor once, unchanged, and replies",
  "A Call addressed by id, from any node, is handled exactly once by the actor with that id and by no other; its handler sees the body, event, custom fields, token, id and originator the caller set, and when the call succeeds the caller gets exactly the response (body, token and custom fields) that handler produced, whether the actor is local or on another node (only a nested call that shares its handler's context and stays on the node returns before it is handled).",
  ["inputs", "configurations", "schedules"], "every placement of caller and callee, any payload bytes and header values, any concurrency of calls",
  "tests check one value over one hop; nothing compares what arrived with what was sent or looks at other actors",
  [SYS, "core/node/system_acceptor.go", "lib/grpc/client.go", "router/msg/msg.go"], [("local map, then address book, then rpc", SYS + " Call"), ("acceptor", "core/node/system_acceptor.go Routing")])
p("N02", "Symbol routing reaches exactly one actor of the requested type",
  "A Call or Send to '?' or '~' with a type is handled by exactly one registered actor of exactly that type somewhere in the cluster; '~' uses an actor on the caller's own node whenever that node has one of that type. If no actor of the type is registered anywhere an error is returned and nothing runs.",
  ["configurations", "histories"], "every placement of actors of several types over several nodes and every caller node, after any registrations and removals",
  "tests use one type with one candidate",
  [SYS, AB], [("symbol resolution", SYS + " Call/Send/findLocalOrWildcardActor")])
p("N03", "Send delivers exactly once without waiting for the handler",
  "A Send that returns no error to a live actor, local or on another node, is handled exactly once with its content unchanged, and Send returns without waiting for the receiving handler to run or finish; one message may be sent to several actors one after the other. A Send that cannot be delivered to a local actor returns an error.",
  ["schedules", "configurations", "inputs"], "any handler duration, any placement of sender and receiver, any number of sends in flight",
  "the only send test is local, with a handler that returns at once",
  [SYS, "lib/grpc/client.go", "core/node/system_acceptor.go"], [("send path", SYS + " Send/handleRemoteSend")])
p("N04", "A call that cannot be delivered or fails remotely is reported",
  "A Call to an id that is empty, unknown, already unregistered, refused by its actor, or on a node that is gone or cannot be reached returns an error (or sets the message's Err) and is handled by nobody; it never reports success. This is so whether the refusal happens on the caller's node or on the node the call was routed to.",
  ["fault_sequences", "configurations", "histories"], "every reason for non-delivery at every hop, including records that went stale on the remote side",
  "tests never call a missing target",
  [SYS, "core/node/system_acceptor.go", "lib/grpc/client.go"], [("error propagation", SYS + " Call; core/node/system_acceptor.go Routing")])
p("G01", "The rpc client bounds concurrent calls and never leaks a slot",
  "At most the configured maximum of limited calls of one rpc client are in flight at any time; a call that finds no free slot waits for one or returns an error when its context ends, and however calls end (success, remote error, missing connection, bad option, cancellation) their slots become free again.",
  ["schedules", "fault_sequences"], "every mixture and order of successful, failing, blocked and cancelled calls for any limit",
  "the tests end each client after one mixture and never check that the limit is still fully usable",
  ["lib/grpc/client.go"], [("worker slots", "lib/grpc/client.go Call")])
# ------------------------------------------------------------------ pubsub
p("S01", "A subscribed channel gets every published message once and in order",
  "Every message published to a topic after an actor's subscription to one of its channels has returned is handled by that subscriber exactly once, in publication order and with its event and body unchanged, when it is the channel's only subscriber; messages published before the channel's first subscription are never delivered, unless that subscription asks to start from the beginning: then it gets what the topic holds. What is published while a channel has temporarily lost all its subscribers (stopped actors) reaches the next one. Publishing and subscribing return without waiting for anybody.",
  ["histories", "inputs", "schedules"], "any number and size of messages and bursts, any bytes, publication from any node, subscriber arbitrarily slow",
  "the test publishes a few messages one by one",
  ["lib/pubsub/ps_channel.go", "lib/pubsub/ps_topic.go", "lib/unbounded/unbounded.go", RT], [("stream consumer loop", "lib/pubsub/ps_channel.go loop/addHandlers")])
p("S02", "Subscribers sharing a channel split its messages without loss or copy",
  "When several actors, on the same or different nodes, subscribe to the same channel of a topic, each message published afterwards is handled by exactly one of them.",
  ["schedules", "configurations"], "any number of subscribers and nodes, any publication pattern",
  "no test has two subscribers on one channel",
  ["lib/pubsub/ps_channel.go"], [("consumer group", "lib/pubsub/ps_channel.go newChannel/loop")])
p("S03", "Channels of one topic are independent of each other",
  "Every channel of a topic receives every message published to the topic after that channel's first subscription, regardless of how many other channels there are and how far or fast they have read; topics do not receive each other's messages.",
  ["schedules", "configurations"], "any number of channels and topics, every relative speed of their consumers",
  "tests use a single channel",
  ["lib/pubsub/ps_channel.go", "lib/pubsub/ps_topic.go"], [("acknowledge and delete", "lib/pubsub/ps_channel.go addHandlers")])
p("S04", "Topics are only cleaned up when empty and unused, and honour their TTL",
  "Closing a topic removes it only if it holds no unread message and no channel exists, and otherwise changes nothing; a topic created with a TTL expires after that time and one created without does not, and opening an existing topic never discards its messages or changes its TTL. Publishing without an event is refused; publishing to a topic nobody has subscribed to on this node does not fail.",
  ["histories", "fault_sequences"], "every history of create, publish, subscribe, consume, close and expiry over several topics and nodes, with failing redis commands",
  "the test covers four single-step close cases and no TTL",
  ["lib/pubsub/ps_topic.go", "lib/pubsub/ps_mgr.go", SYS], [("close", "lib/pubsub/ps_topic.go Close"), ("creation", "lib/pubsub/ps_topic.go newTopic")])
p("S05", "A stopped subscriber consumes nothing more",
  "After a subscribed actor has been stopped, or a channel subscription closed, it takes no message published from then on: messages it had already taken are still handled, and all later ones are left to the channel's other or later subscribers. Closing the last subscription of a channel removes the channel, and only that.",
  ["histories", "schedules"], "stops at any moment relative to publications, any number of remaining or later subscribers",
  "no test stops a subscriber and looks at the channel afterwards",
  [RT, "lib/pubsub/ps_channel.go"], [("channel shutdown", "lib/pubsub/ps_channel.go Close; " + RT + " Exit")])
# ------------------------------------------------------------------ others
p("D01", "The distributed lock excludes others until released or expired",
  "While a lock token is held and not expired, no other Lock on it from any node succeeds; only the value returned to the holder releases it, and releasing with another, an old or an empty value changes nothing and reports false. A lock that is never released frees itself after 10 s, and Lock either obtains the lock or reports an error after its bounded retries, also when redis fails.",
  ["schedules", "crash_points", "fault_sequences"], "every interleaving and timing of lock, unlock, crash and expiry by several clients, with failing redis commands",
  "the lock has no test at all",
  ["lib/dismutex/dismutex.go"], [("set-if-absent with expiry", "lib/dismutex/dismutex.go Lock"), ("compare-and-delete script", "lib/dismutex/dismutex.go Unlock")])
p("M01", "Message custom fields accumulate; the last write of a key wins",
  "After any sequence of custom-field writes on a request or a response, reading a key gives the last value written to it, in the type asked for, keys not written read as zero values, and writes to one side never show on the other. A failed or malformed write is recorded in the message's Err and does not disturb the fields already present. Setting a body does not alter custom fields; setting a header replaces them by the ones in that header. Numbers read back exactly up to 2^53.",
  ["histories", "inputs"], "every sequence of field writes, map replacements, header and body writes and reads over any keys and value types",
  "one test builds a message and checks nothing",
  ["router/msg/msg_custom_map.go", "router/msg/msg.go"], [("merge on write", "router/msg/msg_custom_map.go WithReqCustomFields/WithResCustomFields"), ("typed read", "router/msg/msg_custom_map.go GetReqCustomField/GetResCustomField")])
p("B01", "Actor builders are isolated from each other and from the factory",
  "Options, id and type set on one actor builder are seen by the actor it builds and by nothing else: no other builder of the same type, earlier or later, and not the factory's template, observes them, also when builders are used concurrently; options of the template are visible in every builder.",
  ["histories", "schedules"], "any sequence and interleaving of builder creation, option writes and reads over several types",
  "no test reads an option through a second builder",
  ["core/actor/actor_build_impl.go"], [("builder copy of the template", "core/actor/actor_build_impl.go WithOpt")])
p("Q01", "The unbounded buffer is a FIFO that loses and invents nothing",
  "Items put by any number of producers into the unbounded buffer come out exactly once; items of which one was put before the other was started come out in that order, under the documented use that each receive is followed by a load, and an item is available whenever any has been put and not yet received.",
  ["schedules", "histories"], "every interleaving of producers with a consumer at any backlog",
  "it has no test",
  ["lib/unbounded/unbounded.go"], [("channel plus backlog", "lib/unbounded/unbounded.go")])
p("V01", "Entity version upgrades visit every registered version in order",
  "For any set of version strategies registered in any order, the next version after v is the smallest registered version greater than v, or v itself when there is none, and looking up a registered version returns its strategy while looking up any other reports an error; so repeated upgrading from any version visits each later version exactly once in ascending order and stops.",
  ["inputs", "histories"], "every set of versions, registration order and starting version",
  "it has no test",
  ["core/entity.go"], [("strategy list", "core/entity.go GetNextVersion/GetVerStrategy")])
p("K01", "The tick-task service runs each task on schedule, and only while started",
  "A started tick task first runs after its due time and then once every interval, each run calling the before hook, the handler (unless the context says it is ended) and the end hook in that order; after it is stopped it does not run (except for a run due at the very moment of the stop), stopping before its first run included, and it can be started again. A failing or panicking handler is reported to the exception handler and does not change the schedule or affect other tasks.",
  ["histories", "schedules", "fault_sequences"], "every history of start, stop, restart, failing and panicking runs of several tasks, in every phase",
  "it has no test",
  ["lib/timer/timer.go", "lib/timer/timer_tick.go"], [("task state and ticker goroutine", "lib/timer/timer_tick.go startTickTask")])
p("T01", "The span reporter accounts for every reported span and drains on close",
  "Every span given to the span reporter is either handed to the sender exactly once, in order, if it is sampled, or dropped because the queue was full or it was not sampled; handed-over spans are flushed at least every second and Close returns only after everything queued before it has been handed over and flushed. Spans reported while it is being closed, or later, may be dropped. Reporting never blocks, closing twice is harmless and a failing sender stops nothing.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of reporters, flush ticks, slow or failing senders and close",
  "it has no test",
  ["lib/tracer/slow_reporter.go"], [("bounded queue and flush loop", "lib/tracer/slow_reporter.go processQueue")])
p("C01", "A login token verifies only with its own signature and content",
  "A token created for a (non-empty) id parses back to exactly that id whenever it is parsed; a token whose payload, signature or algorithm was altered, that was truncated, extended or put together from parts of others, that is unsigned or signed with another key is rejected, whatever was parsed before. No token is created for an empty id.",
  ["inputs", "histories"], "all ids and all alterations, after any history of parsed tokens", "one round trip is tested",
  ["lib/token/token.go"], [("signature check", "lib/token/token.go")])

d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(d, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
