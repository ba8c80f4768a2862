------------------------------ MODULE Version ------------------------------
(***************************************************************************)
(* Entity version strategies (core/entity.go).                             *)
(* Operations take effect at an unobservable instant between call and       *)
(* return (Lin).                                                            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC
CONSTANT P
G(ls, c) == IF P = "ALL" \/ P \in ls THEN (c) = TRUE ELSE TRUE
VARIABLES vers, ops
vars == <<vers, ops>>
Init == vers = {} /\ ops = <<>>
NextOf(v) == LET g == {w \in vers : w > v} IN IF g = {} THEN v ELSE CHOOSE w \in g : \A u \in g : w <= u
Inv(x, k, v) == /\ ops' = (x :> [k |-> k, v |-> v, st |-> "open", r |-> 0, ok |-> FALSE]) @@ ops
                /\ UNCHANGED vers
Lin(x) ==
  /\ ops[x].st = "open"
  /\ vers' = IF ops[x].k = "reg" THEN vers \cup {ops[x].v} ELSE vers
  /\ ops' = [ops EXCEPT ![x].st = "lin", ![x].r = NextOf(ops[x].v), ![x].ok = ops[x].v \in vers]
RRet(x) == ops[x].st = "lin" /\ ops' = [ops EXCEPT ![x].st = "done"] /\ UNCHANGED vers
NRet(x, r) == /\ ops[x].st = "lin" /\ G({"V01"}, r = ops[x].r)
              /\ ops' = [ops EXCEPT ![x].st = "done"] /\ UNCHANGED vers
GRet(x, ok, r, same) ==
  /\ ops[x].st = "lin"
  /\ G({"V01"}, ok = ops[x].ok)
  /\ ok => G({"V01"}, r = ops[x].v /\ same)
  /\ ops' = [ops EXCEPT ![x].st = "done"] /\ UNCHANGED vers
Quiet == /\ \A x \in DOMAIN ops : G({"V01"}, ops[x].st = "done")
         /\ UNCHANGED vers /\ ops' = <<>>
Hidden == \E x \in DOMAIN ops : Lin(x)
=============================================================================
