------------------------------- MODULE FifoMC -------------------------------
(* Fifo closed by producers that put one item after another: the guard on Got is exactly linearizability. *)
EXTENDS Fifo, Sequences
CONSTANTS Prod, Rounds
All == "ALL"
VARIABLES k, out      \* producer -> items begun; what came out
mvars == <<vars, k, out>>
MInit == Init /\ k = [p \in Prod |-> 0] /\ out = <<>>
Open(p) == k[p] > 0 /\ (<<p, k[p]>> \in late \/ (<<p, k[p]>> \in DOMAIN its /\ its[<<p, k[p]>>][2] = Never))
MNext == \/ \E p \in Prod : k[p] < Rounds /\ ~Open(p) /\ PInv(<<p, k[p] + 1>>) /\ k' = [k EXCEPT ![p] = @ + 1] /\ UNCHANGED out
         \/ \E p \in Prod : Open(p) /\ PRet(<<p, k[p]>>) /\ UNCHANGED <<k, out>>
         \/ ~waiting /\ GInv /\ UNCHANGED <<k, out>>
         \/ waiting /\ \E x \in DOMAIN its : Got(x) /\ out' = Append(out, x) /\ UNCHANGED k
MSpec == MInit /\ [][MNext]_mvars
\* nothing twice, nothing invented, and the items of one producer in their order
Inv == \A i, j \in 1..Len(out) : i < j => out[i] # out[j] /\ (out[i][1] = out[j][1] => out[i][2] < out[j][2])
Rest == ~ENABLED(MNext) => ENABLED(Quiet) /\ Len(out) = Rounds * Cardinality(Prod)
NoLate == late = {}
=============================================================================
