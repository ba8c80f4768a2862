-------------------------------- MODULE Tick --------------------------------
(***************************************************************************)
(* The tick-task service (lib/timer): when tasks run and what a run does.   *)
(* Starts and stops are linearizable.  Every effective start sets up a      *)
(* schedule of its own, which ends with the next effective stop; a run is   *)
(* begun by a tick of a schedule.  A run that was due when its schedule     *)
(* ended may still begin just then, and one that is in progress goes on.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT P
G(ls, c) == IF P = "ALL" \/ P \in ls THEN (c) = TRUE ELSE TRUE

VARIABLES
  tk,    \* task -> [run, due, ival, in (the service knows it), cur (its schedule, "" when stopped)]
  sc,    \* schedule (named after task and start operation) -> record
  ops,   \* operation -> record
  hk,    \* hooks installed
  Slack  \* timing tolerance of this behaviour, ms
vars == <<tk, sc, ops, hk, Slack>>

Init0(sl) == Slack = sl /\ tk = <<>> /\ sc = <<>> /\ ops = <<>> /\ hk = [b |-> FALSE, e |-> FALSE]

Never == -1

Task(k, run, due, ival) ==
  /\ tk' = (k :> [run |-> run, due |-> due, ival |-> ival, in |-> TRUE, cur |-> ""]) @@ tk
  /\ UNCHANGED <<sc, ops, hk, Slack>>
Hooks(b, e) == hk' = [b |-> b, e |-> e] /\ UNCHANGED <<tk, sc, ops, Slack>>

OpInv(x, op, ks, t) ==
  /\ ops' = (x :> [op |-> op, todo |-> ks, inv |-> t, ret |-> Never, found |-> TRUE]) @@ ops
  /\ UNCHANGED <<tk, sc, hk, Slack>>

\* ph: what it is doing: idle, before (the hook has run), handler, failed, done (the end hook is next)
\* opt: whether the end hook runs after a panic is left open
NewSched(k, x) == [k |-> k, sop |-> x, stop |-> "", t0 |-> Never, last |-> 0, idle |-> 0, ph |-> "idle", opt |-> FALSE,
                   late |-> FALSE]  \* a run began after the stop

\* an operation takes effect on one of its tasks
OpLin(x) ==
  \E k \in ops[x].todo :
    LET z == tk[k]
        s == k \o "/" \o x IN
    /\ ops' = [ops EXCEPT ![x].todo = @ \ {k}, ![x].found = z.in]
    /\ IF ~z.in \/ ~z.run THEN UNCHANGED <<tk, sc>>
       ELSE IF ops[x].op = "start"
       THEN IF z.cur # "" THEN UNCHANGED <<tk, sc>>
            ELSE tk' = [tk EXCEPT ![k].cur = s] /\ sc' = (s :> NewSched(k, x)) @@ sc
       ELSE IF z.cur = "" THEN UNCHANGED <<tk, sc>>
            ELSE tk' = [tk EXCEPT ![k].cur = ""] /\ sc' = [sc EXCEPT ![z.cur].stop = x]
    /\ UNCHANGED <<hk, Slack>>

OpRet(x, ok, t) ==
  /\ x \in DOMAIN ops /\ ops[x].todo = {}
  /\ ops[x].op = "stopn" => G({"K01"}, ok = ops[x].found)
  /\ ops' = [ops EXCEPT ![x].ret = t]
  /\ UNCHANGED <<tk, sc, hk, Slack>>

Rm(k) == tk' = [tk EXCEPT ![k].in = FALSE] /\ UNCHANGED <<sc, ops, hk, Slack>>

\* the latest moment at which an operation took effect
Latest(x, t) == IF ops[x].ret = Never THEN t ELSE ops[x].ret

Ival(z) == tk[z.k].ival
Due(z) == tk[z.k].due
TickTime(z, n) == z.t0 + (n - 1) * Ival(z)

\* tick n of the schedule may begin a run now
Legit(z, n, t) ==
  IF n = 1 THEN /\ z.t0 = Never
                /\ t >= ops[z.sop].inv + Due(z)
                /\ t <= Latest(z.sop, t) + Due(z) + Slack
  ELSE /\ z.t0 # Never
       /\ t + Slack >= TickTime(z, n)
       /\ t <= (IF TickTime(z, n) > z.idle THEN TickTime(z, n) ELSE z.idle) + Slack
NMax(z, t) == IF z.t0 = Never THEN 1 ELSE 2 + (t + Slack - z.t0) \div Ival(z)
NMin(z, t) == IF z.t0 = Never THEN 1 ELSE z.last + 1
Ticks(z, t) ==
  IF z.ph # "idle" \/ (z.stop # "" /\ (z.late \/ t > Latest(z.stop, t) + Slack)) THEN {}
  ELSE {n \in NMin(z, t)..NMax(z, t) : Legit(z, n, t)}

\* the schedules of the task that satisfy F, one of which makes the step U
Some(k, F(_), U(_)) ==
  LET ss == {s \in DOMAIN sc : sc[s].k = k /\ F(sc[s])} IN
  /\ IF ss = {} THEN G({"K01"}, FALSE) /\ UNCHANGED sc
     ELSE \E s \in ss : sc' = [sc EXCEPT ![s] = U(sc[s])]
  /\ UNCHANGED <<tk, ops, hk, Slack>>

\* a run begins (the earliest tick, or the earliest one that has to be answered: the windows increase with the
\* ticks, so if any assignment of ticks to runs works, one of these does)
Begin(k, t, U(_)) ==
  LET F(z) == Ticks(z, t) # {}
      min(S) == CHOOSE n \in S : \A m \in S : n <= m
      ss == {s \in DOMAIN sc : sc[s].k = k /\ F(sc[s])} IN
  /\ IF ss = {} THEN G({"K01"}, FALSE) /\ UNCHANGED sc
     ELSE \E s \in ss :
            LET z == sc[s]
                ns == Ticks(z, t)
                req == {n \in ns : n > 1 /\ TickTime(z, n) > z.idle} IN
            \E n \in {min(ns)} \cup (IF req = {} THEN {} ELSE {min(req)}) :
              sc' = [sc EXCEPT ![s] = [U(z) EXCEPT !.last = n, !.t0 = IF n = 1 THEN t ELSE z.t0, !.late = (z.stop # "")]]
  /\ UNCHANGED <<tk, ops, hk, Slack>>

\* the end of a run: the schedule is idle again
EndRun(z, t) == [z EXCEPT !.ph = "idle", !.idle = t, !.opt = FALSE]

Before(k, end, p, t) ==
  LET U(z) == IF p THEN [z EXCEPT !.ph = "failed", !.opt = TRUE]
              ELSE IF end THEN (IF hk.e THEN [z EXCEPT !.ph = "done"] ELSE EndRun(z, t))
              ELSE [z EXCEPT !.ph = "before"] IN
  Begin(k, t, U)
Handler(k, t) ==
  LET F(z) == z.ph = "before"
      U(z) == [z EXCEPT !.ph = "handler"] IN
  IF hk.b THEN Some(k, F, U) ELSE Begin(k, t, U)
HandlerEnd(k, out, t) ==
  LET F(z) == z.ph = "handler"
      U(z) == IF out = "ok" THEN (IF hk.e THEN [z EXCEPT !.ph = "done"] ELSE EndRun(z, t))
              ELSE [z EXCEPT !.ph = "failed", !.opt = (out = "panic")] IN
  Some(k, F, U)
\* the exception handler is told
Exc(k, t) ==
  LET F(z) == z.ph = "failed"
      U(z) == IF hk.e /\ ~z.opt THEN [z EXCEPT !.ph = "done"] ELSE [z EXCEPT !.ph = "idle", !.idle = t] IN
  Some(k, F, U)
After(k, p, t) ==
  LET F(z) == z.ph = "done" \/ (z.ph = "idle" /\ z.opt)
      U(z) == IF p THEN [z EXCEPT !.ph = "failed", !.opt = TRUE] ELSE EndRun(z, t) IN
  Some(k, F, U)

\* a tick that came while the schedule was idle has been answered
NoneMissed(z, t) ==
  z.stop = "" /\ z.ph = "idle" =>
    IF z.t0 = Never THEN ops[z.sop].ret # Never => t <= ops[z.sop].ret + Due(z) + Slack
    ELSE ~ \E n \in (z.last + 1)..NMax(z, t) : TickTime(z, n) > z.idle /\ TickTime(z, n) + Slack < t

Quiet(t) ==
  /\ \A x \in DOMAIN ops : G({"K01"}, ops[x].ret # Never)
  /\ \A s \in DOMAIN sc : G({"K01"}, NoneMissed(sc[s], t) /\ sc[s].ph \in {"idle", "handler"})
  \* (schedules that are over are forgotten)
  /\ sc' = [s \in {s \in DOMAIN sc : sc[s].stop = "" \/ sc[s].ph # "idle" \/ t <= Latest(sc[s].stop, t) + Slack} |-> sc[s]]
  /\ UNCHANGED <<tk, ops, hk, Slack>>

Hidden == \E x \in DOMAIN ops : OpLin(x)
=============================================================================
