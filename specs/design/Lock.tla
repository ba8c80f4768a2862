-------------------------------- MODULE Lock --------------------------------
(***************************************************************************)
(* The distributed lock redis command by redis command                     *)
(* (lib/dismutex/dismutex.go): set-if-absent with an expiry, compare and   *)
(* delete in one script, retries with a pause, clients that crash while    *)
(* they hold it.  It justifies D01 of Mutex.                               *)
(*                                                                         *)
(* Variants: "twostep" the comparison and the deletion are separate        *)
(* commands; "noexpiry" the expiry is set by a second command (a crash in  *)
(* between leaves the lock held for ever); "blind" unlock does not compare.*)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Clients, Expiry, MaxT, Variant
VARIABLES now, key, pc, held, val, crashes
\* key: "" or the value stored, with its expiry instant (0: none)
vars == <<now, key, pc, held, val, crashes>>
Free == [v |-> 0, exp |-> 0]
Init == /\ now = 1 /\ key = Free /\ pc = [c \in Clients |-> "idle"] /\ held = [c \in Clients |-> [t |-> 0]] /\ val = [c \in Clients |-> 0] /\ crashes = 0
Id == CHOOSE f \in [Clients -> 1..Cardinality(Clients)] : \A c, d \in Clients : f[c] = f[d] => c = d
Tick == /\ now < MaxT /\ now' = now + 1
        /\ key' = IF key.exp # 0 /\ key.exp <= now + 1 THEN Free ELSE key
        /\ UNCHANGED <<pc, held, val, crashes>>
Set(c) == /\ pc[c] = "idle"
          /\ IF key.v = 0
               THEN /\ key' = [v |-> Id[c], exp |-> IF Variant = "noexpiry" THEN 0 ELSE now + Expiry]
                    /\ pc' = [pc EXCEPT ![c] = IF Variant = "noexpiry" THEN "expire" ELSE "held"]
                    /\ val' = [val EXCEPT ![c] = Id[c]] /\ held' = [held EXCEPT ![c] = [t |-> now]]
               ELSE UNCHANGED <<key, pc, val, held>>
          /\ UNCHANGED <<now, crashes>>
Expire(c) == /\ pc[c] = "expire" /\ pc' = [pc EXCEPT ![c] = "held"]
             /\ key' = IF key.v # 0 THEN [key EXCEPT !.exp = now + Expiry] ELSE key
             /\ UNCHANGED <<now, held, val, crashes>>
\* a holder may release late, after its lock has expired and somebody else has it
Unlock(c) == /\ pc[c] = "held"
             /\ CASE Variant = "twostep" -> /\ pc' = [pc EXCEPT ![c] = IF key.v = val[c] THEN "del" ELSE "idle"]
                                            /\ UNCHANGED key
                  [] Variant = "blind" -> key' = Free /\ pc' = [pc EXCEPT ![c] = "idle"]
                  [] OTHER -> /\ key' = IF key.v = val[c] THEN Free ELSE key
                              /\ pc' = [pc EXCEPT ![c] = "idle"]
             /\ UNCHANGED <<now, held, val, crashes>>
Del(c) == /\ pc[c] = "del" /\ key' = Free /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<now, held, val, crashes>>
Crash(c) == /\ crashes = 0 /\ pc[c] # "idle" /\ pc' = [pc EXCEPT ![c] = "crashed"] /\ crashes' = 1 /\ UNCHANGED <<now, key, held, val>>
Next == Tick \/ \E c \in Clients : Set(c) \/ Expire(c) \/ Unlock(c) \/ Del(c) \/ Crash(c)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* two holders whose locks have not expired
Holds(c) == pc[c] \in {"held", "expire", "del", "crashed"} /\ now < held[c].t + Expiry
\* (a client that has begun the second step of its release no longer counts)
Excl == \A c, d \in Clients : c # d => ~(Holds(c) /\ Holds(d) /\ pc[c] # "del" /\ pc[d] # "del")
\* nobody can be locked out for ever
Freed == key.v # 0 => key.exp # 0 \/ \E c \in Clients : pc[c] = "expire"
Inv == Excl /\ Freed
=============================================================================
