------------------------------- MODULE Chain -------------------------------
(***************************************************************************)
(* Event chains of one actor (core/actor/actor_chain.go, OnEvent): which    *)
(* chain is in force for an event, and in which order its steps run.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANT P
G(ls, c) == IF P = "ALL" \/ P \in ls THEN (c) = TRUE ELSE TRUE

VARIABLES
  chains, \* chain -> sequence of outcomes of its steps
  reg,    \* event -> chain in force
  ons,    \* OnEvent operation -> record
  ms      \* message -> record
vars == <<chains, reg, ons, ms>>

Init == chains = <<>> /\ reg = <<>> /\ ons = <<>> /\ ms = <<>>

Def(k, outs) == chains' = (k :> outs) @@ chains /\ UNCHANGED <<reg, ons, ms>>

InForce(ev) == IF ev \in DOMAIN reg THEN reg[ev] ELSE ""

OnInv(x, k, ev) ==
  /\ ons' = (x :> [k |-> k, ev |-> ev, st |-> "open", ok |-> FALSE]) @@ ons
  /\ UNCHANGED <<chains, reg, ms>>
\* the registration takes effect
OnLin(x) ==
  /\ ons[x].st = "open"
  /\ LET free == ons[x].ev \notin DOMAIN reg IN
     /\ ons' = [ons EXCEPT ![x].st = "lin", ![x].ok = free]
     /\ reg' = IF free THEN (ons[x].ev :> ons[x].k) @@ reg ELSE reg
  /\ UNCHANGED <<chains, ms>>
OnRet(x, ok) ==
  /\ x \in DOMAIN ons
  /\ ons[x].st = "lin"
  /\ G({"A11"}, ok = ons[x].ok)
  /\ ons' = [ons EXCEPT ![x].st = "done"]
  /\ UNCHANGED <<chains, reg, ms>>

Inv(m, ev, kind) ==
  /\ ms' = (m :> [ev |-> ev, kind |-> kind, pos |-> 0, k |-> "", reg0 |-> InForce(ev), ret |-> FALSE]) @@ ms
  /\ UNCHANGED <<chains, reg, ons>>

\* no step is left to run
Over(m) == IF ms[m].pos = 0 THEN ms[m].reg0 = ""
           ELSE \/ ms[m].pos = Len(chains[ms[m].k])
                \/ chains[ms[m].k][ms[m].pos] \in {"err", "panic", "markerr"}

Step(m, k, pos) ==
  /\ m \in DOMAIN ms
  /\ LET r == ms[m] IN
     /\ G({"A11"}, pos = r.pos + 1)
     /\ r.pos = 0 => G({"A11"}, k = InForce(r.ev) /\ ~(r.kind = "call" /\ r.ret))
     /\ r.pos > 0 => G({"A11"}, k = r.k /\ ~Over(m))
     /\ ms' = [ms EXCEPT ![m].pos = pos, ![m].k = k]
  /\ UNCHANGED <<chains, reg, ons>>

Ret(m, ok) ==
  /\ m \in DOMAIN ms
  /\ G({"A11"}, ok)
  /\ ms[m].kind = "call" => G({"A11"}, Over(m))
  /\ ms' = [ms EXCEPT ![m].ret = TRUE]
  /\ UNCHANGED <<chains, reg, ons>>

Quiet ==
  /\ \A x \in DOMAIN ons : G({"A11"}, ons[x].st = "done")
  /\ UNCHANGED vars

\* time has passed for every step to end
End ==
  /\ \A m \in DOMAIN ms : G({"A11"}, ms[m].ret /\ Over(m))
  /\ Quiet

Hidden == \E x \in DOMAIN ons : OnLin(x)
=============================================================================
