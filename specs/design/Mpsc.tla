-------------------------------- MODULE Mpsc --------------------------------
(***************************************************************************)
(* The mailbox of an actor step by step: the lock-free queue of            *)
(* lib/mpsc/mpsc.go with its wake-up channel, Runtime.Received, the        *)
(* consuming loop of Runtime.update and the drain check of Runtime.Exit,   *)
(* one action per atomic memory access.  It justifies the abstraction of   *)
(* ActorSys (a mailbox is a set, plus an order between operations that do  *)
(* not overlap; a stop returns after everything accepted was handled).     *)
(*                                                                         *)
(* Variant selects deliberate defects, each of which TLC has to find       *)
(* (tools/selftest.py):                                                    *)
(*   "none"        the code as it is                                       *)
(*   "busyfirst"   the drain check reads busy before the counts            *)
(*   "noreceiving" the drain check does not wait for running Received      *)
(*   "nobusy"      the drain check does not wait for the running handler   *)
(*   "noresignal"  Pop does not pass the wake-up on                        *)
(*   "signalfirst" Push signals before it links the node                   *)
(*   "closedlate"  Received checks closed before it announces itself       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Prod,      \* producers; each sends Rounds messages, one after the other
          Rounds, Variant

VARIABLES
  head, nxt,         \* queue: last node; node -> next node (0: none)
  tail,              \* consumer's position
  count, C,          \* message count; the wake-up channel (capacity 1)
  closed, busy, receiving,
  ppc, pk, pprev, perr,   \* producer: control, message number, previous node, refused messages
  cpc, cgot,         \* consumer
  xpc, xr,           \* stopper
  done,              \* sequence of handled messages
  pre                \* message -> messages whose send had returned when its own send began

vars == <<head, nxt, tail, count, C, closed, busy, receiving, ppc, pk, pprev, perr, cpc, cgot, xpc, xr, done, pre>>

Msg == (1..Cardinality(Prod)) \X (1..Rounds)
Idx == CHOOSE f \in [Prod -> 1..Cardinality(Prod)] : \A p, q \in Prod : f[p] = f[q] => p = q
M(p) == <<Idx[p], pk[p]>>
Stub == <<0, 0>>
None == <<-1, -1>>
Nodes == Msg \cup {Stub}

Init ==
  /\ head = Stub /\ nxt = [n \in Nodes |-> None] /\ tail = Stub
  /\ count = 0 /\ C = FALSE /\ closed = 0 /\ busy = FALSE /\ receiving = 0
  /\ ppc = [p \in Prod |-> "start"] /\ pk = [p \in Prod |-> 1] /\ pprev = [p \in Prod |-> None] /\ perr = {}
  /\ cpc = "top" /\ cgot = None /\ xpc = "idle" /\ xr = 0 /\ done = <<>>
  /\ pre = [m \in Msg |-> {}]

Sent(p) == {<<Idx[p], k>> : k \in 1..(pk[p] - 1)}
AllSent == UNION {Sent(p) : p \in Prod} \ perr

U(vs) == UNCHANGED vs

\* ------------------------------------------------------------- Received
PGo(p, from, to) == ppc[p] = from /\ ppc' = [ppc EXCEPT ![p] = to]
Next1(p) == IF pk[p] = Rounds THEN "end" ELSE "start"

PStart(p) ==
  /\ PGo(p, "start", IF Variant = "closedlate" THEN "chk" ELSE "recv")
  /\ pre' = [pre EXCEPT ![M(p)] = AllSent]
  /\ U(<<head, nxt, tail, count, C, closed, busy, receiving, pk, pprev, perr, cpc, cgot, xpc, xr, done>>)
PRecv(p) ==
  /\ PGo(p, "recv", IF Variant = "closedlate" THEN "swap" ELSE "chk")
  /\ receiving' = receiving + 1
  /\ U(<<head, nxt, tail, count, C, closed, busy, pk, pprev, perr, cpc, cgot, xpc, xr, done, pre>>)
PChk(p) ==
  /\ ppc[p] = "chk"
  /\ IF closed = 0
       THEN ppc' = [ppc EXCEPT ![p] = IF Variant = "closedlate" THEN "recv" ELSE "swap"] /\ U(perr)
       ELSE ppc' = [ppc EXCEPT ![p] = "leave"] /\ perr' = perr \cup {M(p)}
  /\ U(<<head, nxt, tail, count, C, closed, busy, receiving, pk, pprev, cpc, cgot, xpc, xr, done, pre>>)
PSwap(p) ==
  /\ PGo(p, "swap", IF Variant = "signalfirst" THEN "count" ELSE "link")
  /\ pprev' = [pprev EXCEPT ![p] = head] /\ head' = M(p)
  /\ U(<<nxt, tail, count, C, closed, busy, receiving, pk, perr, cpc, cgot, xpc, xr, done, pre>>)
PLink(p) ==
  /\ PGo(p, "link", IF Variant = "signalfirst" THEN "leave" ELSE "count")
  /\ nxt' = [nxt EXCEPT ![pprev[p]] = M(p)]
  /\ U(<<head, tail, count, C, closed, busy, receiving, pk, pprev, perr, cpc, cgot, xpc, xr, done, pre>>)
PCount(p) ==
  /\ PGo(p, "count", IF count + 1 > 0 THEN "signal" ELSE IF Variant = "signalfirst" THEN "link" ELSE "leave")
  /\ count' = count + 1
  /\ U(<<head, nxt, tail, C, closed, busy, receiving, pk, pprev, perr, cpc, cgot, xpc, xr, done, pre>>)
PSignal(p) ==
  /\ PGo(p, "signal", IF Variant = "signalfirst" THEN "link" ELSE "leave")
  /\ C' = TRUE
  /\ U(<<head, nxt, tail, count, closed, busy, receiving, pk, pprev, perr, cpc, cgot, xpc, xr, done, pre>>)
PLeave(p) ==
  /\ ppc[p] = "leave"
  /\ ppc' = [ppc EXCEPT ![p] = IF pk[p] = Rounds THEN "end" ELSE "start"]
  /\ pk' = [pk EXCEPT ![p] = @ + 1]
  /\ receiving' = IF Variant = "closedlate" /\ M(p) \in perr THEN receiving ELSE receiving - 1
  /\ U(<<head, nxt, tail, count, C, closed, busy, pprev, perr, cpc, cgot, xpc, xr, done, pre>>)

\* ------------------------------------------------------------- update
CGo(from, to) == cpc = from /\ cpc' = to
CTop == /\ CGo("top", "select") /\ busy' = FALSE
        /\ U(<<head, nxt, tail, count, C, closed, receiving, ppc, pk, pprev, perr, cgot, xpc, xr, done, pre>>)
CSelect == /\ cpc = "select"
           /\ \/ C /\ C' = FALSE /\ cpc' = "busy" /\ U(<<closed, xpc>>)
              \* the shutdown channel: closed is set by the loop itself
              \/ xpc = "shut" /\ cpc' = "top" /\ closed' = 1 /\ xpc' = "recv" /\ U(C)
              \/ closed = 2 /\ cpc' = "gone" /\ U(<<C, closed, xpc>>)
           /\ U(<<head, nxt, tail, count, busy, receiving, ppc, pk, pprev, perr, cgot, xr, done, pre>>)
CBusy == /\ CGo("busy", "pop") /\ busy' = TRUE
         /\ U(<<head, nxt, tail, count, C, closed, receiving, ppc, pk, pprev, perr, cgot, xpc, xr, done, pre>>)
CPop == /\ cpc = "pop"
        /\ IF nxt[tail] = None
             THEN cpc' = "top" /\ U(<<tail, cgot>>)
             ELSE cpc' = "uncount" /\ tail' = nxt[tail] /\ cgot' = nxt[tail]
        /\ U(<<head, nxt, count, C, closed, busy, receiving, ppc, pk, pprev, perr, xpc, xr, done, pre>>)
CUncount == /\ CGo("uncount", IF count - 1 > 0 /\ Variant # "noresignal" THEN "resignal" ELSE "handle")
            /\ count' = count - 1
            /\ U(<<head, nxt, tail, C, closed, busy, receiving, ppc, pk, pprev, perr, cgot, xpc, xr, done, pre>>)
CResignal == /\ CGo("resignal", "handle") /\ C' = TRUE
             /\ U(<<head, nxt, tail, count, closed, busy, receiving, ppc, pk, pprev, perr, cgot, xpc, xr, done, pre>>)
CHandle == /\ CGo("handle", "top") /\ done' = Append(done, cgot)
           /\ U(<<head, nxt, tail, count, C, closed, busy, receiving, ppc, pk, pprev, perr, cgot, xpc, xr, pre>>)

\* ------------------------------------------------------------- Exit
XGo(from, to) == xpc = from /\ xpc' = to
XStop == /\ XGo("idle", "shut") /\ U(<<head, nxt, tail, count, C, closed, busy, receiving, ppc, pk, pprev, perr, cpc, cgot, xr, done, pre>>)
\* the drain check reads receiving, count and busy one after the other (and starts again if one is not clear)
Order == CASE Variant = "busyfirst"   -> <<"recv", "busy", "count">>
           [] Variant = "noreceiving" -> <<"count", "busy">>
           [] Variant = "nobusy"      -> <<"recv", "count">>
           [] OTHER                   -> <<"recv", "count", "busy">>
Clear(what) == CASE what = "recv" -> receiving = 0 [] what = "count" -> count <= 0 [] what = "busy" -> ~busy
XCheck == /\ xpc = "recv"
          /\ LET i == xr + 1 IN
             IF Clear(Order[i])
               THEN IF i = Len(Order) THEN closed' = 2 /\ xpc' = "closed" /\ xr' = 0 ELSE xr' = i /\ U(<<closed, xpc>>)
               ELSE xr > 0 /\ xr' = 0 /\ U(<<closed, xpc>>)
          /\ U(<<head, nxt, tail, count, C, busy, receiving, ppc, pk, pprev, perr, cpc, cgot, done, pre>>)

Next == \/ \E p \in Prod : PStart(p) \/ PRecv(p) \/ PChk(p) \/ PSwap(p) \/ PLink(p) \/ PCount(p) \/ PSignal(p) \/ PLeave(p)
        \/ CTop \/ CSelect \/ CBusy \/ CPop \/ CUncount \/ CResignal \/ CHandle
        \/ XStop \/ XCheck
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Handled == {done[i] : i \in 1..Len(done)}
\* A02: nothing twice, nothing out of order, nothing refused
Once == Cardinality(Handled) = Len(done)
Order1 == \A i \in 1..Len(done) : \A m \in pre[done[i]] : \E j \in 1..(i - 1) : done[j] = m
NotRefused == Handled \cap perr = {}
\* A04: when the stop returns, nothing is running and everything accepted has been handled
Drained == xpc = "closed" => /\ cpc \notin {"uncount", "resignal", "handle"}
                             /\ AllSent \subseteq Handled
\* A02: no lost wake-up: when nothing moves any more everything accepted has been handled
NoLost == (\A p \in Prod : ppc[p] = "end") /\ cpc = "select" /\ ~C /\ xpc # "shut" /\ closed # 2 => AllSent \subseteq Handled
Inv == Once /\ Order1 /\ NotRefused /\ Drained /\ NoLost
=============================================================================
