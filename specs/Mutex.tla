------------------------------- MODULE Mutex -------------------------------
(***************************************************************************)
(* The distributed lock (lib/dismutex): locks, unlocks, expiry and failing  *)
(* redis.  The moment a lock is taken lies between its call and its return; *)
(* expiry is counted with the tolerance Slack.                              *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANT P
G(ls, c) == IF P = "ALL" \/ P \in ls THEN (c) = TRUE ELSE TRUE

Expiry == 10000
Bound == 2800    \* the bounded retries take no longer
Retry == 700

VARIABLES
  lk,    \* lock operation -> record
  un,    \* unlock operation -> record
  bad,   \* redis is failing
  badt,  \* last time redis was failing
  Slack
vars == <<lk, un, bad, badt, Slack>>
Init0(sl) == lk = <<>> /\ un = <<>> /\ bad = FALSE /\ badt = -100000 /\ Slack = sl
Never == -1

LInv(x, k, canc, t) ==
  /\ x \notin DOMAIN lk
  /\ lk' = (x :> [k |-> k, canc |-> canc, inv |-> t, ret |-> Never, ok |-> FALSE, rel |-> FALSE, relt |-> Never, lost |-> FALSE]) @@ lk
  /\ UNCHANGED <<un, bad, badt, Slack>>

\* y certainly holds its token at time t
Holds(y, t) == lk[y].ok /\ ~lk[y].rel /\ ~lk[y].lost /\ t + Slack < lk[y].ret + Expiry /\ ~ \E u \in DOMAIN un : un[u].of = y /\ ~un[u].ret
\* y may have held its token at some moment since time t
MayHold(y, t) == /\ lk[y].ret = Never \/ lk[y].ok
                 /\ lk[y].ret = Never \/ t <= lk[y].ret + Expiry + Slack
                 /\ lk[y].rel => t <= lk[y].relt

LRet(x, ok, fresh, t) ==
  /\ x \in DOMAIN lk /\ lk[x].ret = Never
  /\ LET k == lk[x].k
         from == t - Retry - Slack IN
     /\ G({"D01"}, fresh)
     /\ t <= lk[x].inv + Bound + Slack \/ G({"D01"}, FALSE)
     /\ ok => G({"D01"}, k # "" /\ ~ \E y \in DOMAIN lk : y # x /\ lk[y].k = k /\ Holds(y, t))
     /\ ~ok => G({"D01"}, \/ k = "" \/ lk[x].canc \/ bad \/ badt >= from
                          \/ \E y \in DOMAIN lk : y # x /\ lk[y].k = k /\ MayHold(y, from))
     /\ lk' = [lk EXCEPT ![x].ret = t, ![x].ok = ok]
  /\ UNCHANGED <<un, bad, badt, Slack>>

UInv(u, k, of, t) ==
  /\ un' = (u :> [k |-> k, of |-> IF of \in DOMAIN lk /\ lk[of].k = k THEN of ELSE "", ret |-> FALSE]) @@ un
  /\ UNCHANGED <<lk, bad, badt, Slack>>
URet(u, r, t) ==
  /\ u \in DOMAIN un
  /\ LET a == un[u].of IN
     /\ r => G({"D01"}, a # "" /\ lk[a].ok /\ ~lk[a].rel /\ t <= lk[a].ret + Expiry + Slack)
     /\ ~r => G({"D01"}, \/ a = "" \/ lk[a].rel \/ bad \/ badt >= t - Slack
                         \/ t + Slack >= lk[a].ret + Expiry
                         \/ \E v \in DOMAIN un : v # u /\ un[v].of = a /\ ~un[v].ret)
     /\ lk' = IF r /\ a # "" /\ ~lk[a].rel THEN [lk EXCEPT ![a].rel = TRUE, ![a].relt = t]
               \* an unlock that redis failed may have worked all the same
               ELSE IF ~r /\ a # "" /\ (bad \/ badt >= t - Slack) THEN [lk EXCEPT ![a].lost = TRUE] ELSE lk
  /\ un' = [un EXCEPT ![u].ret = TRUE]
  /\ UNCHANGED <<bad, badt, Slack>>

Fail(on, t) == bad' = on /\ badt' = t /\ UNCHANGED <<lk, un, Slack>>

Quiet(t) ==
  /\ \A x \in DOMAIN lk : lk[x].ret = Never => G({"D01"}, t <= lk[x].inv + Bound + Slack)
  /\ \A u \in DOMAIN un : G({"D01"}, un[u].ret)
  /\ UNCHANGED vars
=============================================================================
