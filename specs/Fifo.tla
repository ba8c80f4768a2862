-------------------------------- MODULE Fifo --------------------------------
(***************************************************************************)
(* A multi-producer single-consumer FIFO (lib/unbounded, lib/mpsc).  Pushes *)
(* are linearizable but invisible: an item must come out after the items    *)
(* whose put had returned before its own began.                            *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC
CONSTANT P
G(ls, c) == IF P = "ALL" \/ P \in ls THEN (c) = TRUE ELSE TRUE

VARIABLES
  its,     \* items which have not come out: when their put began and returned (Never: not yet)
  late,    \* items which came out before their put returned
  waiting, \* the consumer waits
  ord      \* counts puts, for real-time order
vars == <<its, late, waiting, ord>>
Init == its = <<>> /\ late = {} /\ waiting = FALSE /\ ord = 1
Never == 0

PInv(x) == /\ x \notin DOMAIN its
           /\ its' = (x :> <<ord, Never>>) @@ its
           /\ ord' = ord + 1
           /\ UNCHANGED <<waiting, late>>
PRet(x) == /\ x \in late \cup DOMAIN its
           /\ its' = IF x \in late THEN its ELSE [its EXCEPT ![x] = <<its[x][1], ord>>]
           /\ late' = late \ {x}
           /\ ord' = ord + 1
           /\ UNCHANGED waiting
GInv == waiting' = TRUE /\ UNCHANGED <<its, late, ord>>
Got(x) ==
  /\ G({"Q01", "A02"}, x \in DOMAIN its /\ \A y \in DOMAIN its : its[y][2] = Never \/ its[y][2] > its[x][1])
  /\ its' = [y \in DOMAIN its \ {x} |-> its[y]]
  /\ late' = IF x \in DOMAIN its /\ its[x][2] = Never THEN late \cup {x} ELSE late
  /\ waiting' = FALSE
  /\ UNCHANGED ord
\* a put never blocks, and a waiting consumer gets what there is
Quiet ==
  /\ \A x \in DOMAIN its : G({"Q01", "A02"}, its[x][2] # Never)
  /\ G({"Q01", "A02"}, late = {})
  /\ waiting => G({"Q01", "A02"}, DOMAIN its = {})
  /\ UNCHANGED vars
=============================================================================
