------------------------------- MODULE Future -------------------------------
(***************************************************************************)
(* Futures (core/actor/actor_reenter_impl.go) as their users see them:      *)
(* Then attaches a continuation and returns the next future of the chain,   *)
(* Complete sets the value once, IsCompleted reads.                        *)
(* Complete is not atomic for its caller, so its effect is a separate,      *)
(* unobservable step (CompLin) somewhere between its call and its return;   *)
(* the same holds for the completion of the next future after a             *)
(* continuation has run (Propagate).                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANT P
G(ls, c) == IF P = "ALL" \/ P \in ls THEN (c) = TRUE ELSE TRUE

VARIABLES
  val,    \* future -> value, "" while incomplete
  cbs,    \* continuation (= name of the future Then returns) -> record
  comps,  \* Complete operation -> record
  isc     \* IsCompleted operation -> record
vars == <<val, cbs, comps, isc>>

Init == val = <<>> /\ cbs = <<>> /\ comps = <<>> /\ isc = <<>>

Futs == DOMAIN val

New(f) == /\ f \notin Futs
          /\ val' = (f :> "") @@ val
          /\ UNCHANGED <<cbs, comps, isc>>

ThenInv(c, f) ==
  /\ c \notin DOMAIN cbs /\ f \in Futs
  /\ cbs' = (c :> [f |-> f, st |-> "wait", ret |-> FALSE, prop |-> FALSE]) @@ cbs
  /\ val' = (c :> "") @@ val
  /\ UNCHANGED <<comps, isc>>

ThenRet(c) ==
  /\ c \in DOMAIN cbs /\ ~cbs[c].ret
  /\ cbs' = [cbs EXCEPT ![c].ret = TRUE]
  /\ UNCHANGED <<val, comps, isc>>

CompInv(x, f, v) ==
  /\ x \notin DOMAIN comps /\ f \in Futs
  /\ comps' = (x :> [f |-> f, v |-> v, st |-> "open"]) @@ comps
  /\ UNCHANGED <<val, cbs, isc>>

Set(f, v) == val' = [val EXCEPT ![f] = IF @ = "" THEN v ELSE @]

CompLin(x) ==
  /\ comps[x].st = "open"
  /\ comps' = [comps EXCEPT ![x].st = "lin"]
  /\ Set(comps[x].f, comps[x].v)
  /\ UNCHANGED <<cbs, isc>>

CompRet(x) ==
  /\ x \in DOMAIN comps
  /\ comps[x].st = "lin"
  /\ comps' = [comps EXCEPT ![x].st = "done"]
  /\ UNCHANGED <<val, cbs, isc>>

Cb(c, v) ==
  /\ c \in DOMAIN cbs
  /\ G({"A09"}, cbs[c].st = "wait")
  /\ G({"A09"}, val[cbs[c].f] # "" /\ v = val[cbs[c].f])
  /\ cbs' = [cbs EXCEPT ![c].st = "run"]
  /\ UNCHANGED <<val, comps, isc>>

CbEnd(c) ==
  /\ c \in DOMAIN cbs
  /\ cbs' = [cbs EXCEPT ![c].st = "done"]
  /\ UNCHANGED <<val, comps, isc>>

Propagate(c) ==
  /\ cbs[c].st = "done" /\ ~cbs[c].prop
  /\ cbs' = [cbs EXCEPT ![c].prop = TRUE]
  /\ Set(c, val[cbs[c].f])
  /\ UNCHANGED <<comps, isc>>

IscInv(x, f) ==
  /\ isc' = (x :> [f |-> f, v0 |-> IF f \in Futs THEN val[f] # "" ELSE FALSE]) @@ isc
  /\ UNCHANGED <<val, cbs, comps>>

IscRet(x, r) ==
  /\ x \in DOMAIN isc
  /\ LET f == isc[x].f IN
     /\ r => G({"A09"}, val[f] # "")
     /\ ~r => G({"A09"}, ~isc[x].v0)
  /\ UNCHANGED vars

Quiet ==
  /\ \A x \in DOMAIN comps : G({"A09"}, comps[x].st = "done")
  /\ \A c \in DOMAIN cbs :
       /\ G({"A09"}, cbs[c].ret)
       /\ G({"A09"}, val[cbs[c].f] # "" => cbs[c].st # "wait")
       /\ G({"A09"}, cbs[c].st = "done" => cbs[c].prop)
  /\ UNCHANGED vars

Hidden == \/ \E x \in DOMAIN comps : CompLin(x)
          \/ \E c \in DOMAIN cbs : Propagate(c)

----------------------------------------------------------------------------
(* what the design guarantees, checked exhaustively (FutureMC) *)
OneValue == [][\A f \in Futs : val[f] # "" => val'[f] = val[f]]_vars
=============================================================================
