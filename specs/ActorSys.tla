------------------------------ MODULE ActorSys ------------------------------
(***************************************************************************)
(* The actor runtime of braid at the level a user can observe it: actors   *)
(* with a mailbox, calls (whose call trees are tied together by a shared   *)
(* context), sends, re-entrant calls with futures, timers, and shutdown.   *)
(*                                                                         *)
(* Every action is one observable event of the implementation (an API call *)
(* starting, an API call returning, a user handler starting or ending, a   *)
(* timer callback starting or ending, a future completing, quiescence).    *)
(* Its guard says when that event is legal.  Each guard conjunct carries    *)
(* the ids of the properties it expresses, G({"A02"}, cond): the same       *)
(* specification is used                                                   *)
(*   - with one property's guards on for deciding recorded executions of   *)
(*     the real code (ActorTrace), so that a rejection names its property, *)
(*   - with all guards on for bounded exploration of its own behaviours    *)
(*     (specs/mc), which checks that the guards imply the properties.      *)
(*                                                                         *)
(* Mailbox abstraction: concurrent pushes are linearizable but invisible,  *)
(* so a mailbox is the set of unhandled messages and each message carries  *)
(* `bef', the messages to the same actor whose operation had returned      *)
(* before its own began; those must be handled first.  For distinct        *)
(* messages and a single consumer this is FIFO linearizability             *)
(* (design/Mpsc.tla checks the queue algorithm step by step).                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANT P            \* property under check, "ALL" or "NONE"

G(ls, c) == IF P = "ALL" \/ P \in ls THEN (c) = TRUE ELSE TRUE

Inf == 1000000000
CallTimeout == 5000   \* system call timeout, ms
ForceClose == 10000   \* drain limit of a stopping actor, ms

VARIABLES
  now,      \* time, ms
  slack,    \* timing tolerance of this behaviour, ms
  ast,      \* actor -> "live" | "stopping" | "stopped"
  aty,      \* actor -> type
  forced,   \* actors whose drain was cut off by the time limit
  idle,     \* actor -> since when it has not been executing anything
  run,      \* actor -> set of items (messages, timers) being executed
  msgs,     \* message -> record
  exits,    \* stop operation -> record
  tms,      \* timer -> record
  evs       \* registration of an event at run time -> record

vars == <<now, slack, ast, aty, forced, idle, run, msgs, exits, tms, evs>>

Init0(sl) ==
  /\ now = 0 /\ slack = sl
  /\ ast = <<>> /\ aty = <<>> /\ forced = {}
  /\ run = <<>> /\ idle = <<>> /\ msgs = <<>> /\ exits = <<>> /\ tms = <<>> /\ evs = <<>>

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y

Actors == DOMAIN ast
Ms == DOMAIN msgs
Live(a) == a \in Actors /\ ast[a] = "live"
Stopped(a) == a \in Actors /\ ast[a] = "stopped"

----------------------------------------------------------------------------
(* Messages.  Record fields:
   to    the addressed actor, "" when addressed by symbol (then ty matters)
   ty    addressed type
   kind  "call"  a root call: the caller waits for the whole tree
         "ncall" a call or send made inside a handler with the handler's context ("n" = nested)
         "send"  a send outside any context tree
         "re"    a re-entrant call
   org   originating actor, "" if none
   root  the message whose tree it belongs to
   st    "new" -> "run" -> "done"
   op    the operation: "open" -> "ok" | "okerr" (returned nil, message Err set) | "err"
   mc    for "err": could the message still have been queued (the caller gave up because its context ended)
   t0,t1 operation start and return;  dl deadline;  cx cancellation instant
   dead  the target was stopped (or unknown) when the operation began
   bef   messages to be handled first
   q     the system came to rest while the operation was waiting, so its message is in the mailbox
   td    instant at which the tree was done (roots)
   fut   "none" | "open" | "ok" | "err"    (re-entrant calls)
   by    the actor that made a re-entrant call, "" otherwise
   px    the message whose context a re-entrant call inherits, "" if it has its own
   own   the message whose wrapper is passed on, "" if the operation has its own
   ev    the event addressed
   sk    no handler for the event was registered when the operation began: the message may be passed over,
         which nobody but the caller sees
   out   outcome of the handler *)

TreeOf(r) == {m \in Ms : msgs[m].root = r}
Refused(m) == msgs[m].op = "err" \/ msgs[m].fut = "err"
Finished(m) == msgs[m].st = "done" \/ (msgs[m].st = "new" /\ Refused(m))
Skipped(m) == msgs[m].st = "new" /\ msgs[m].sk
TreeDone(r) == \A m \in TreeOf(r) : Finished(m) \/ Skipped(m)
\* those which may have been passed over have been, if their actor does not do anything any more
SkipOver(r) == \A m \in TreeOf(r) : Skipped(m) => msgs[m].to \in Actors /\ ast[msgs[m].to] = "live" /\ run[msgs[m].to] = {}

HasEv(a, ev) == ev = "ev" \/ \E x \in DOMAIN evs : evs[x].a = a /\ evs[x].ev = ev /\ evs[x].st = "done"

\* accepted and not yet handled
Pending(a) == {m \in Ms : msgs[m].to = a /\ msgs[m].st = "new" /\ ~msgs[m].sk /\ msgs[m].kind # "re" /\ msgs[m].op \in {"ok", "okerr"}}
\* the caller is still waiting
Waiting(m) == IF msgs[m].kind = "re" THEN msgs[m].fut = "open" ELSE msgs[m].op = "open"
InFlight(a) == {m \in Ms : msgs[m].to = a /\ msgs[m].st = "new" /\ ~msgs[m].sk /\ Waiting(m)}
\* known to be queued: accepted, or the system came to rest while the caller was waiting
Queued(a) == Pending(a) \cup {m \in Ms : msgs[m].to = a /\ msgs[m].st = "new" /\ msgs[m].q /\ ~msgs[m].sk}

Resolve(to, by, org) == IF org = "" THEN by ELSE org

RECURSIVE CtxEnd(_)
CtxEnd(m) == LET r == msgs[m] e == Min2(r.dl, r.cx)
             IN IF r.px = "" THEN e ELSE Min2(e, CtxEnd(msgs[r.px].root))
\* a re-entrant call that reuses the wrapper of message m leaves its failure in that wrapper
Lent(m) == \E x \in Ms : msgs[x].kind = "re" /\ msgs[x].own = m
Limit(m) == Min2(msgs[m].t0 + CallTimeout, Max2(msgs[m].t0, CtxEnd(m)))

Reg(a, ty, t) ==
  /\ now' = t
  /\ ast' = (a :> "live") @@ ast
  /\ aty' = (a :> ty) @@ aty
  /\ run' = (a :> {}) @@ run
  /\ idle' = (a :> t) @@ idle
  /\ UNCHANGED <<slack, forced, msgs, exits, tms, evs>>

(* An operation begins: client or handler (of message p) addresses message m. *)
Inv(m, kind, to, ty, ev, by, org, p, dl, px, own, t) ==
  /\ m \notin Ms
  /\ now' = t
  /\ msgs' = (m :> [to |-> to, ty |-> ty, kind |-> kind, by |-> by, px |-> px, own |-> own, ev |-> ev,
                    sk |-> (IF to = "" THEN ~(\A a \in Actors : aty[a] = ty => HasEv(a, ev)) ELSE ~HasEv(to, ev)),
                    org |-> org,
                    root |-> IF p = "" THEN m ELSE msgs[p].root,
                    st |-> "new", op |-> "open", mc |-> FALSE, t0 |-> t, t1 |-> Inf,
                    dl |-> dl, cx |-> Inf,
                    dead |-> to # "" /\ (to \notin Actors \/ ast[to] = "stopped"),
                    bef |-> IF to = "" THEN {} ELSE Queued(to), q |-> FALSE,
                    td |-> Inf, fut |-> IF kind = "re" THEN "open" ELSE "none",
                    out |-> ""]) @@ msgs
  /\ UNCHANGED <<slack, idle, ast, aty, forced, run, exits, tms, evs>>

Blocking(m) == msgs[m].kind = "call"

(* Reasons for which an operation may be refused. *)
MayRefuse(m) ==
  \/ msgs[m].to # "" /\ (msgs[m].dead \/ msgs[m].to \notin Actors \/ ast[msgs[m].to] # "live")
  \/ msgs[m].to = "" /\ (\A b \in Actors : aty[b] # msgs[m].ty)
  \/ msgs[m].to = "" /\ (\E a \in Actors : aty[a] = msgs[m].ty /\ (ast[a] # "live" \/ a = msgs[m].org))
  \/ msgs[m].to # "" /\ msgs[m].org = msgs[m].to

(* The operation returns.  ok: returned nil; merr: message Err set; res: response seen by the caller. *)
Ret(m, ok, merr, res, t) ==
  /\ m \in Ms /\ msgs[m].op = "open" /\ msgs[m].kind # "re"
  /\ now' = t
  /\ LET r == msgs[m]
         ctxOver == CtxEnd(m) <= t
         timedOut == t >= r.t0 + CallTimeout
         good == ok /\ ~merr
     IN
     \* a refused message is never handled: neither later (HS) nor before its sender is told
     /\ ~ok => G({"A02"}, r.st = "new" \/ (r.kind = "call" /\ ctxOver))
     /\ (ok /\ merr /\ ~timedOut) => G({"A05"}, TreeDone(m))
     /\ ok => /\ G({"A04"}, ~r.dead)
              /\ G({"A07"}, r.org = "" \/ r.org # r.to)
     /\ r.kind \in {"send", "ncall"} =>
           /\ G({"N03"}, t <= r.t0 + slack)
           /\ ~ok => G({"A06", "N03", "A02"}, MayRefuse(m) \/ (r.to = "" /\ CtxEnd(r.root) <= t))
           /\ (ok /\ r.to # "" /\ Stopped(r.to) /\ r.to \notin forced) => G({"A04"}, r.st # "new" \/ r.sk)
     /\ r.kind = "call" =>
           /\ good => /\ G({"A05", "A06"}, TreeDone(m) /\ (r.to # "" => r.st = "done" \/ Skipped(m)))
                      /\ G({"N01"}, r.out = "ok" => res = m)
           /\ ~good => G({"A06"}, \/ ok /\ merr /\ (timedOut \/ Lent(m))
                                  \/ ~ok /\ (ctxOver \/ MayRefuse(m)))
           /\ G({"A06"}, t <= Limit(m) + slack)
           /\ G({"A05", "A03"}, r.td = Inf \/ t <= r.td + slack)
           /\ G({"A07"}, (r.org # "" /\ r.org = r.to) => ~ok /\ t <= r.t0 + slack)
           /\ (ok /\ merr /\ r.to # "" /\ Stopped(r.to) /\ r.to \notin forced) => G({"A04"}, r.st # "new" \/ r.sk)
     /\ msgs' = [msgs EXCEPT ![m].op = IF good THEN "ok" ELSE IF ok THEN "okerr" ELSE "err",
                             ![m].t1 = t,
                             ![m].mc = ~ok /\ r.kind = "call" /\ ctxOver /\ ~r.dead,
                             ![m].td = IF @ = Inf /\ good THEN t ELSE @]
  /\ UNCHANGED <<slack, idle, ast, aty, forced, run, exits, tms, evs>>

Cancel(m, t) ==
  /\ m \in Ms
  /\ now' = t
  /\ msgs' = [msgs EXCEPT ![m].cx = Min2(@, t)]
  /\ UNCHANGED <<slack, idle, ast, aty, forced, run, exits, tms, evs>>

(* The handler (first middleware) of message m starts at actor a. *)
HS(a, m, ev, t) ==
  /\ m \in Ms /\ a \in Actors
  /\ now' = t
  /\ LET r == msgs[m] IN
     /\ G({"A01"}, run[a] = {})
     /\ G({"A02"}, r.st = "new")
     /\ G({"A11", "N01", "A02"}, r.ev = ev)
     /\ G({"A02"}, ~Refused(m) \/ r.mc)
     /\ G({"A02", "A04"}, ~r.dead)
     /\ G({"A02"}, \A b \in r.bef : msgs[b].to = a => msgs[b].st # "new")
     /\ G({"A02", "N01"}, r.to # "" => r.to = a)
     /\ G({"N02"}, r.to = "" => r.ty = aty[a])
     /\ G({"A04"}, ast[a] # "stopped" \/ a \in forced)
     /\ G({"A07"}, r.org = "" \/ r.org # a)
  /\ msgs' = [msgs EXCEPT ![m].st = "run", ![m].to = a]
  /\ run' = [run EXCEPT ![a] = @ \cup {m}]
  /\ UNCHANGED <<slack, idle, ast, aty, forced, exits, tms, evs>>

(* ... and its last step ends, with outcome ok, err or panic. *)
HE(a, m, out, t) ==
  /\ m \in Ms /\ a \in Actors
  /\ now' = t
  /\ LET ms1 == [msgs EXCEPT ![m].st = "done", ![m].out = out]
         root == msgs[m].root
         dn == \A x \in TreeOf(root) : x = m \/ Finished(x)
     IN msgs' = IF dn /\ root \in Ms THEN [ms1 EXCEPT ![root].td = Min2(@, t)] ELSE ms1
  /\ idle' = [idle EXCEPT ![a] = t]
  /\ run' = [run EXCEPT ![a] = @ \ {m}]
  /\ UNCHANGED <<slack, ast, aty, forced, exits, tms, evs>>

(* The future of re-entrant call m completes: seen by the continuation attached to it. *)
FutDone(m, ok, res, t) ==
  /\ m \in Ms
  /\ now' = t
  /\ LET r == msgs[m]
         ctxOver == CtxEnd(m) <= t
     IN
     /\ G({"A08"}, r.fut = "open")
     /\ ok => G({"A08"}, (r.st = "done" \/ Skipped(m)) /\ TreeDone(m) /\ (r.out = "ok" => res = m \/ Lent(m)))
     /\ ~ok => G({"A08"}, ctxOver \/ t >= r.t0 + CallTimeout \/ MayRefuse(m) \/ Lent(m)
                             \* the wrapper is that of a call which has failed meanwhile
                             \/ (r.own # "" /\ t >= Limit(r.own)))
     /\ (~ok /\ ~ctxOver /\ t < r.t0 + CallTimeout /\ ~Lent(m) /\ r.own = "") => G({"A02", "A08"}, r.st = "new")
     /\ msgs' = [msgs EXCEPT ![m].fut = IF ok THEN "ok" ELSE "err",
                             ![m].mc = ~ok /\ (ctxOver \/ t >= r.t0 + CallTimeout)]
  /\ UNCHANGED <<slack, idle, ast, aty, forced, run, exits, tms, evs>>

(* ReenterCall itself returns: at once. *)
ReRet(m, t) ==
  /\ m \in Ms
  /\ now' = t
  /\ G({"A08"}, t <= msgs[m].t0 + slack)
  /\ msgs' = [msgs EXCEPT ![m].op = "ok", ![m].t1 = t]
  /\ UNCHANGED <<slack, idle, ast, aty, forced, run, exits, tms, evs>>

----------------------------------------------------------------------------
(* Shutdown of one actor, by Exit or Unregister (operation x). *)
XInv(x, a, t) ==
  /\ x \notin DOMAIN exits /\ a \in Actors
  /\ now' = t
  /\ exits' = (x :> [a |-> a, t0 |-> t, st |-> "open", owed |-> {}]) @@ exits
  /\ ast' = [ast EXCEPT ![a] = IF @ = "live" THEN "stopping" ELSE @]
  /\ UNCHANGED <<slack, idle, aty, forced, run, msgs, tms, evs>>

FirstStop(a) == MinS({exits[x].t0 : x \in {y \in DOMAIN exits : exits[y].a = a}})

XRet(x, t) ==
  /\ x \in DOMAIN exits /\ exits[x].st = "open"
  /\ now' = t
  /\ LET a == exits[x].a
         late == t >= FirstStop(a) + ForceClose
     IN
     /\ ~late => G({"A04"}, run[a] = {} /\ Pending(a) = {})
     /\ ast' = [ast EXCEPT ![a] = "stopped"]
     /\ forced' = IF late THEN forced \cup {a} ELSE forced
  \* the replies which arrived before the actor stopped: their futures are owed a result
  /\ LET a == exits[x].a
     IN exits' = [exits EXCEPT ![x].st = "done",
                   ![x].owed = IF t < FirstStop(a) + ForceClose /\ ast[a] # "stopped"
                               THEN {m \in Ms : msgs[m].kind = "re" /\ msgs[m].by = a /\ msgs[m].fut = "open" /\ msgs[m].td # Inf /\ msgs[m].td + slack < t}
                               ELSE {}]
  /\ UNCHANGED <<slack, idle, aty, run, msgs, tms, evs>>

----------------------------------------------------------------------------
(* A further event is registered with a running actor, from outside or by its own handler. *)
EvReg(x, a, ev, t) ==
  /\ x \notin DOMAIN evs /\ a \in Actors
  /\ now' = t
  /\ evs' = (x :> [a |-> a, ev |-> ev, st |-> "open", t0 |-> t]) @@ evs
  /\ UNCHANGED <<slack, idle, ast, aty, forced, run, msgs, exits, tms>>

EvRet(x, ok, t) ==
  /\ x \in DOMAIN evs /\ evs[x].st = "open"
  /\ now' = t
  \* it is refused only if the event has a handler already
  /\ ~ok => G({"A11"}, evs[x].ev = "ev" \/ \E y \in DOMAIN evs \ {x} : evs[y].a = evs[x].a /\ evs[y].ev = evs[x].ev)
  /\ ok => G({"A11"}, ~HasEv(evs[x].a, evs[x].ev))
  /\ evs' = [evs EXCEPT ![x].st = IF ok THEN "done" ELSE "refused"]
  /\ UNCHANGED <<slack, idle, ast, aty, forced, run, msgs, exits, tms>>

----------------------------------------------------------------------------
(* Timers.  next: next instant at which a firing becomes due; pend: firings due and not yet run;
   opt: firings that were pending when the timer was paused, which may come after it is resumed. *)
TmReg(tm, a, due, ival, t) ==
  /\ tm \notin DOMAIN tms
  /\ now' = t
  /\ tms' = (tm :> [a |-> a, ival |-> ival, next |-> IF due > 0 THEN t + due ELSE t + ival,
                    pend |-> 0, opt |-> 0, st |-> "on", fired |-> 0]) @@ tms
  /\ UNCHANGED <<slack, idle, ast, aty, forced, run, msgs, exits, evs>>

(* how many firings became due up to time t, and the next instant after them *)
DueBy(r, t) == IF r.next > t THEN 0
               ELSE IF r.ival = 0 THEN 1 ELSE 1 + (t - r.next) \div r.ival
NextAfter(r, t) == IF r.next > t THEN r.next
                   ELSE IF r.ival = 0 THEN Inf ELSE r.next + ((t - r.next) \div r.ival + 1) * r.ival
Accrue(r, t) == IF r.st # "on" THEN r
                ELSE [r EXCEPT !.pend = @ + DueBy(r, t), !.next = NextAfter(r, t)]

(* a timer callback starts *)
TS(tm, a, t) ==
  /\ tm \in DOMAIN tms /\ a \in Actors
  /\ now' = t
  /\ LET r == Accrue(tms[tm], t + slack) IN
     /\ G({"A01"}, run[a] = {})
     /\ G({"A10", "A04"}, r.st = "on")
     /\ G({"A10"}, r.a = a /\ r.pend + r.opt > 0)
     /\ G({"A04", "A10"}, ast[a] # "stopped" \/ a \in forced)
     /\ tms' = [tms EXCEPT ![tm] = [r EXCEPT !.pend = IF @ > 0 THEN @ - 1 ELSE 0,
                                               !.opt = IF r.pend = 0 /\ @ > 0 THEN @ - 1 ELSE @, !.fired = @ + 1]]
  /\ run' = [run EXCEPT ![a] = @ \cup {tm}]
  /\ UNCHANGED <<slack, idle, ast, aty, forced, msgs, exits, evs>>

TE(tm, a, t) ==
  /\ tm \in DOMAIN tms /\ a \in Actors
  /\ now' = t
  /\ idle' = [idle EXCEPT ![a] = t]
  /\ run' = [run EXCEPT ![a] = @ \ {tm}]
  /\ UNCHANGED <<slack, ast, aty, forced, msgs, exits, tms, evs>>

TmCancel(tm, t) ==
  /\ tm \in DOMAIN tms
  /\ now' = t
  /\ tms' = [tms EXCEPT ![tm].st = "off"]
  /\ UNCHANGED <<slack, idle, ast, aty, forced, run, msgs, exits, evs>>

(* the timer is paused: whatever of it is due may still come if it is resumed before its turn *)
TmStop(tm, t) ==
  /\ tm \in DOMAIN tms
  /\ now' = t
  /\ tms' = [tms EXCEPT ![tm] = LET r == Accrue(@, t + slack) IN [r EXCEPT !.st = "paused", !.pend = 0, !.opt = @ + r.pend]]
  /\ UNCHANGED <<slack, idle, ast, aty, forced, run, msgs, exits, evs>>

(* a new interval (0: the old one again) counts from now on and resumes a paused timer; firings already due stay
   due.  Giving the interval it has already changes nothing, not even for a paused timer. *)
TmReset(tm, ival, t) ==
  /\ tm \in DOMAIN tms
  /\ now' = t
  /\ tms' = [tms EXCEPT ![tm] = LET r == Accrue(@, t) IN
                IF r.ival = ival THEN r
                ELSE [r EXCEPT !.ival = IF ival = 0 THEN @ ELSE ival, !.next = t + (IF ival = 0 THEN r.ival ELSE ival), !.st = "on"]]
  /\ UNCHANGED <<slack, idle, ast, aty, forced, run, msgs, exits, evs>>

----------------------------------------------------------------------------
(* An operation that has nobody to wait for is still under way although nothing can move. *)
Hung(k) ==
  /\ G(CASE k = "timer" -> {"A10", "A03"} [] k = "re" -> {"A08"} [] k = "onev" -> {"A11"} [] OTHER -> {"A02", "A03", "N03"}, FALSE)
  /\ UNCHANGED vars
(* Nothing in the system can move before time passes or the environment acts. *)
Idle(a) == run[a] = {}
Quiet(t) ==
  /\ now' = t
  /\ \A a \in Actors : (ast[a] = "live" /\ Idle(a)) =>
        /\ G({"A02", "A03"}, Pending(a) = {})
        /\ G({"A02", "A03"}, \A m \in InFlight(a) : msgs[m].kind \notin {"call", "re"} \/ msgs[m].org = a)
  /\ \A m \in Ms : (msgs[m].op = "open" /\ msgs[m].kind = "call") =>
        /\ G({"A05", "A03"}, ~(TreeDone(m) /\ msgs[m].td + slack < t))
        /\ G({"A05", "A03", "A11"}, ~(TreeDone(m) /\ SkipOver(m)))
        /\ G({"A06"}, t <= Limit(m) + slack)
  /\ \A m \in Ms : (msgs[m].op = "open" /\ msgs[m].kind \in {"ncall", "send"}) =>
        G({"N03", "A06"}, FALSE)
  /\ \A m \in Ms : (msgs[m].kind = "re" /\ msgs[m].fut = "open" /\ Live(msgs[m].by) /\ Idle(msgs[m].by)) =>
        G({"A08"}, ~(msgs[m].td + slack < t) /\ t <= Limit(m) + slack)
  /\ \A m \in Ms : (msgs[m].kind = "re" /\ msgs[m].op = "open") => G({"A08"}, FALSE)
  /\ \A x \in DOMAIN evs : evs[x].st = "open" => G({"A03", "A11"}, ~Idle(evs[x].a))
  /\ \A x \in DOMAIN exits : G({"A04", "A08"}, \A m \in exits[x].owed : msgs[m].fut # "open")
  /\ \A x \in DOMAIN exits : exits[x].st = "open" =>
        LET a == exits[x].a IN
        G({"A04"}, \/ ~Idle(a)
                   \/ /\ Pending(a) = {}
                      /\ t <= Max2(idle[a], exits[x].t0) + 1000 + slack)
  /\ \A tm \in DOMAIN tms :
        LET r == Accrue(tms[tm], t) IN
        (r.st = "on" /\ Live(r.a) /\ Idle(r.a)) =>
           G({"A10", "A03"}, r.pend = 0 \/ (slack > 0 /\ DueBy(r, t - slack) = 0))
  /\ tms' = [tm \in DOMAIN tms |-> LET r == Accrue(tms[tm], t) IN IF slack = 0 /\ Live(r.a) /\ Idle(r.a) THEN [r EXCEPT !.opt = 0] ELSE r]
  /\ msgs' = [m \in Ms |-> IF Waiting(m) /\ msgs[m].st = "new" /\ ~msgs[m].dead
                             /\ (msgs[m].org = "" \/ msgs[m].org # msgs[m].to)
                          THEN [msgs[m] EXCEPT !.q = TRUE] ELSE msgs[m]]
  /\ UNCHANGED <<slack, idle, ast, aty, forced, run, exits, evs>>

(* Events about messages nobody sent: legal under no property. *)
Stray(ls, t) == /\ G(ls, FALSE) /\ now' = t
                /\ UNCHANGED <<slack, idle, ast, aty, forced, run, msgs, exits, tms, evs>>
=============================================================================
