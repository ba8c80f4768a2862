------------------------------ MODULE Reporter ------------------------------
(***************************************************************************)
(* The span reporter (lib/tracer/slow_reporter.go): reports, the sender's   *)
(* Append and Flush, drops of a full queue, and closing.                    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANT P
G(ls, c) == IF P = "ALL" \/ P \in ls THEN (c) = TRUE ELSE TRUE

Cap == 100
Second == 1000

VARIABLES
  sp,     \* span -> record
  nq,     \* how many spans may be in the queue
  ord,    \* counts events, for real-time order
  busy,   \* the sender is in a call
  dl,     \* by when a flush must have begun, 0 when nothing is unflushed
  dirty,  \* something was appended since the last flush ended
  slow,   \* the sender takes time
  cls,    \* close operation -> record
  clo,    \* the sender was closed
  Slack
vars == <<sp, nq, ord, busy, dl, dirty, slow, cls, clo, Slack>>

Init0(sl) == /\ sp = <<>> /\ nq = 0 /\ ord = 0 /\ busy = "" /\ dl = 0 /\ dirty = FALSE /\ slow = FALSE
             /\ cls = <<>> /\ clo = FALSE /\ Slack = sl

Cfg(s) == slow' = s /\ UNCHANGED <<sp, nq, ord, busy, dl, dirty, cls, clo, Slack>>

Open == {x \in DOMAIN sp : ~sp[x].out /\ ~sp[x].drop}
Never == -1

RInv(x, s) ==
  /\ x \notin DOMAIN sp
  /\ ord' = ord + 1
  \* every report in progress has now seen a full queue
  /\ LET full == nq + 1 > Cap
         nsp == (x :> [smp |-> s, inv |-> ord, ret |-> Never, out |-> FALSE, drop |-> FALSE, full |-> FALSE]) @@ sp IN
     sp' = IF full THEN [y \in DOMAIN nsp |-> IF nsp[y].ret = Never THEN [nsp[y] EXCEPT !.full = TRUE] ELSE nsp[y]] ELSE nsp
  /\ nq' = nq + 1
  /\ UNCHANGED <<busy, dl, dirty, slow, cls, clo, Slack>>
\* the reporter says that it dropped a span: only when the queue was full
Drop(x) ==
  /\ x \in DOMAIN sp => G({"T01"}, sp[x].full)
  /\ IF x \in DOMAIN sp /\ ~sp[x].drop
     THEN sp' = [sp EXCEPT ![x].drop = TRUE] /\ nq' = nq - 1
     ELSE UNCHANGED <<sp, nq>>
  /\ UNCHANGED <<ord, busy, dl, dirty, slow, cls, clo, Slack>>
RRet(x, n) ==
  /\ x \in DOMAIN sp
  /\ G({"T01"}, n = (IF sp[x].drop THEN 1 ELSE 0))
  /\ ord' = ord + 1
  /\ sp' = [sp EXCEPT ![x].ret = ord]
  /\ UNCHANGED <<nq, busy, dl, dirty, slow, cls, clo, Slack>>

\* the queue is empty of everything reported before span x
Gone(x) == {y \in DOMAIN sp : ~sp[y].out /\ ~sp[y].drop /\ ~sp[y].smp /\ sp[y].ret # Never /\ sp[y].ret < sp[x].inv}

App(x, t) ==
  /\ G({"T01"}, x \in DOMAIN sp /\ sp[x].smp /\ ~sp[x].out /\ ~sp[x].drop /\ busy = "" /\ ~clo)
  /\ x \in DOMAIN sp => G({"T01"}, \A y \in DOMAIN sp : sp[y].smp /\ ~sp[y].out /\ ~sp[y].drop /\ sp[y].ret # Never => sp[y].ret >= sp[x].inv)
  /\ IF x \in DOMAIN sp
     THEN LET gone == Gone(x) IN
          /\ sp' = [y \in DOMAIN sp |-> IF y = x \/ y \in gone THEN [sp[y] EXCEPT !.out = TRUE] ELSE sp[y]]
          /\ nq' = nq - 1 - Cardinality(gone)
     ELSE UNCHANGED <<sp, nq>>
  /\ busy' = "app"
  /\ UNCHANGED <<ord, dl, dirty, slow, cls, clo, Slack>>
AppEnd(x, t) ==
  /\ busy' = "" /\ dirty' = TRUE
  /\ dl' = IF dl = 0 \/ slow THEN t + Second ELSE dl
  /\ UNCHANGED <<sp, nq, ord, slow, cls, clo, Slack>>
Flush(t) ==
  /\ G({"T01"}, busy = "" /\ ~clo)
  /\ dl # 0 => G({"T01"}, t <= dl + Slack)
  /\ busy' = "fl" /\ dl' = 0
  /\ UNCHANGED <<sp, nq, ord, dirty, slow, cls, clo, Slack>>
FlushEnd(t) ==
  /\ busy' = "" /\ dirty' = FALSE
  /\ UNCHANGED <<sp, nq, ord, dl, slow, cls, clo, Slack>>

CInv(x) ==
  /\ cls' = (x :> [inv |-> ord, ret |-> FALSE]) @@ cls
  /\ ord' = ord + 1
  \* the request to close takes a place in the queue
  /\ IF cls = <<>>
     THEN /\ nq' = nq + 1
          /\ sp' = [y \in DOMAIN sp |-> IF sp[y].ret = Never /\ nq + 1 > Cap THEN [sp[y] EXCEPT !.full = TRUE] ELSE sp[y]]
     ELSE UNCHANGED <<sp, nq>>
  /\ UNCHANGED <<busy, dl, dirty, slow, clo, Slack>>
\* everything reported before the close is with the sender, and flushed
\* (spans reported after an earlier close began may be lost)
Drained(x) == /\ \A y \in DOMAIN sp : sp[y].smp /\ ~sp[y].drop /\ sp[y].ret # Never /\ (\A c \in DOMAIN cls : sp[y].ret < cls[c].inv) => sp[y].out
              /\ ~dirty /\ busy = ""
CRet(x) ==
  /\ x \in DOMAIN cls
  \* (a close that finds another one in progress may leave the waiting to it)
  /\ G({"T01"}, (Drained(x) /\ clo) \/ \E y \in DOMAIN cls : y # x /\ ~cls[y].ret)
  /\ cls' = [cls EXCEPT ![x].ret = TRUE]
  /\ UNCHANGED <<sp, nq, ord, busy, dl, dirty, slow, clo, Slack>>
Closed ==
  /\ G({"T01"}, ~clo /\ \E x \in DOMAIN cls : ~cls[x].ret /\ Drained(x))
  /\ clo' = TRUE
  /\ UNCHANGED <<sp, nq, ord, busy, dl, dirty, slow, cls, Slack>>

Quiet(t) ==
  /\ \A x \in DOMAIN sp : G({"T01"}, sp[x].ret # Never)
  /\ busy = "" => \A x \in DOMAIN cls : G({"T01"}, cls[x].ret)
  /\ dl # 0 /\ busy = "" => G({"T01"}, t <= dl + Slack)
  /\ UNCHANGED vars
\* everything has had time to happen; spans reported while or after it was closed may be lost
End ==
  /\ \A x \in DOMAIN cls : G({"T01"}, cls[x].ret)
  /\ \A x \in DOMAIN sp : sp[x].smp /\ ~sp[x].drop /\ (\A y \in DOMAIN cls : sp[x].ret < cls[y].inv) => G({"T01"}, sp[x].out)
  /\ UNCHANGED vars
=============================================================================
