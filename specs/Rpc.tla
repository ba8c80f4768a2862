-------------------------------- MODULE Rpc --------------------------------
(***************************************************************************)
(* The rpc client (lib/grpc/client.go): limited calls share Max slots,      *)
(* unlimited ones do not.  Slots are not observable; what is observable is  *)
(* which handlers run on the server and which calls have returned, so the   *)
(* bound is stated on calls whose handler has started, and a leaked slot    *)
(* shows as a waiting call when fewer than Max are under way.               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANT P
G(ls, c) == IF P = "ALL" \/ P \in ls THEN (c) = TRUE ELSE TRUE
Never == -1
Recover == 130000    \* the longest time until a lost connection is tried again

VARIABLES
  c,       \* call -> record
  Max,
  down,    \* a server is gone
  downt,   \* last time one was
  Slack
vars == <<c, Max, down, downt, Slack>>
Init0(sl) == c = <<>> /\ Max = 0 /\ down = FALSE /\ downt = -1000000 /\ Slack = sl

Cfg(m) == Max' = m /\ UNCHANGED <<c, down, downt, Slack>>
CInv(x, k, lim, dl, t) ==
  /\ x \notin DOMAIN c
  /\ c' = (x :> [k |-> k, lim |-> lim, inv |-> t, end |-> IF dl > 0 THEN t + dl ELSE Never, canc |-> FALSE,
                 hs |-> FALSE, he |-> FALSE, ret |-> FALSE, lost |-> FALSE]) @@ c
  /\ UNCHANGED <<Max, down, downt, Slack>>
Cancel(x, t) == c' = [c EXCEPT ![x].canc = TRUE] /\ UNCHANGED <<Max, down, downt, Slack>>

MayEnded(x, t) == c[x].canc \/ (c[x].end # Never /\ t >= c[x].end)
MustEnded(x, t) == c[x].canc \/ (c[x].end # Never /\ t > c[x].end + Slack)
\* a limited call that certainly occupies a slot
Busy(x, t) == c[x].lim /\ c[x].hs /\ ~c[x].he /\ ~c[x].ret /\ ~MayEnded(x, t) /\ ~c[x].lost
NBusy(t) == Cardinality({x \in DOMAIN c : Busy(x, t)})
Troubled(x, t) == down \/ c[x].inv <= downt + Recover
Valid(x) == c[x].k \in {"ok", "err"}

Hs(x, same, t) ==
  /\ x \in DOMAIN c
  /\ G({"G01"}, ~c[x].hs /\ same /\ c[x].k \in {"ok", "err"})
  /\ c' = [c EXCEPT ![x].hs = TRUE]
  \* (a call that has returned already, cancelled on its way, occupies nothing)
  /\ G({"G01"}, Cardinality({y \in DOMAIN c : c'[y].lim /\ c'[y].hs /\ ~c[y].he /\ ~c[y].ret /\ ~MayEnded(y, t) /\ ~c[y].lost}) <= Max)
  /\ UNCHANGED <<Max, down, downt, Slack>>
He(x, t) ==
  /\ c' = [c EXCEPT ![x].he = TRUE]
  /\ UNCHANGED <<Max, down, downt, Slack>>
CRet(x, err, match, t) ==
  /\ x \in DOMAIN c /\ ~c[x].ret
  /\ ~err => G({"G01"}, c[x].k = "ok" /\ c[x].he /\ match)
  /\ err => G({"G01"}, c[x].k \in {"noconn", "badopt"} \/ (c[x].k = "err" /\ c[x].he) \/ MayEnded(x, t) \/ Troubled(x, t))
  /\ c' = [c EXCEPT ![x].ret = TRUE]
  /\ UNCHANGED <<Max, down, downt, Slack>>
\* a server disappears or comes back; calls under way may be lost with it
Net(up, t) ==
  /\ down' = ~up /\ downt' = t
  /\ c' = [x \in DOMAIN c |-> IF c[x].hs /\ ~c[x].ret THEN [c[x] EXCEPT !.lost = TRUE] ELSE c[x]]
  /\ UNCHANGED <<Max, Slack>>

Quiet(t) ==
  /\ \A x \in DOMAIN c : ~c[x].ret =>
       /\ G({"G01"}, ~c[x].he /\ ~MustEnded(x, t))
       /\ IF c[x].lim
          THEN c[x].hs \/ G({"G01"}, Troubled(x, t) \/ NBusy(t) >= Max)
          ELSE c[x].hs \/ G({"G01"}, Troubled(x, t))
  /\ UNCHANGED vars
=============================================================================
