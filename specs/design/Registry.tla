------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* Registration, unregistration and the removal of stale records of one    *)
(* id on one node (core/node/system_impl.go, core/addressbook), step by    *)
(* step: who holds which lock, what is in the node's own maps and in redis *)
(* at each moment, with redis failing and with a record a crash left       *)
(* behind.  It justifies R01, R02, R04 and R06 of Cluster: at rest the     *)
(* running actor, the record, the node's own index and the weight agree.   *)
(*                                                                         *)
(* Variants (deliberate defects, among them the ones of the original       *)
(* code): "noreserve" ids are not reserved while being registered;         *)
(* "noclean" a removal of a stale record does not look for a registration; *)
(* "recount" the *)
(* weight of a record that is taken over is counted again; "nocurrent"     *)
(* Unregister does not look whether the id has been taken again; "nowait"  *)
(* a registration does not wait for a removal under way.                   *)
(***************************************************************************)
EXTENDS Naturals, Integers, FiniteSets, TLC
CONSTANTS Procs, Variant, MaxFail

VARIABLES map, nextInst, stopped, reserved, cleanMu, opMu, rec, idmap, weight, nfail, pc, op, loc
vars == <<map, nextInst, stopped, reserved, cleanMu, opMu, rec, idmap, weight, nfail, pc, op, loc>>
None == 0
\* map: the running actor instance (0: none); rec: the record in redis; idmap: the id in the node's own index
Init == /\ map = None /\ nextInst = 1 /\ stopped = {} /\ reserved = FALSE /\ cleanMu = "" /\ opMu = ""
        /\ rec \in BOOLEAN /\ idmap = FALSE /\ weight = (IF rec THEN 1 ELSE 0) /\ nfail = 0
        /\ pc = [p \in Procs |-> "start"] /\ op \in [Procs -> {"reg", "unreg", "call"}]
        /\ loc = [p \in Procs |-> [inst |-> None, old |-> FALSE, out |-> ""]]
Go(p, a, b) == pc[p] = a /\ pc' = [pc EXCEPT ![p] = b]
Out(p, o) == loc' = [loc EXCEPT ![p].out = o]
Fail == nfail < MaxFail /\ nfail' = nfail + 1
Free(m) == m = ""
\* ---------------------------------------------------------------- Register
R1(p) == /\ pc[p] = "start" /\ op[p] = "reg"
         /\ IF map # None \/ (reserved /\ Variant # "noreserve")
              THEN pc' = [pc EXCEPT ![p] = "done"] /\ Out(p, "refused") /\ UNCHANGED reserved
              ELSE pc' = [pc EXCEPT ![p] = IF Variant = "nowait" THEN "r3" ELSE "r2"] /\ reserved' = TRUE /\ UNCHANGED loc
         /\ UNCHANGED <<map, nextInst, stopped, cleanMu, opMu, rec, idmap, weight, nfail, op>>
R2(p) == /\ Go(p, "r2", "r3") /\ Free(cleanMu)
         /\ UNCHANGED <<map, nextInst, stopped, reserved, cleanMu, opMu, rec, idmap, weight, nfail, op, loc>>
R3(p) == /\ pc[p] = "r3" /\ Free(opMu)
         /\ IF idmap THEN pc' = [pc EXCEPT ![p] = "rfail"] /\ UNCHANGED opMu
                     ELSE pc' = [pc EXCEPT ![p] = "r4"] /\ opMu' = p
         /\ UNCHANGED <<map, nextInst, stopped, reserved, cleanMu, rec, idmap, weight, nfail, op, loc>>
R4(p) == /\ pc[p] = "r4"
         /\ \/ pc' = [pc EXCEPT ![p] = "r5"] /\ loc' = [loc EXCEPT ![p].old = rec] /\ UNCHANGED <<nfail, opMu>>
            \/ Fail /\ pc' = [pc EXCEPT ![p] = "rfail"] /\ opMu' = "" /\ UNCHANGED loc
         /\ UNCHANGED <<map, nextInst, stopped, reserved, cleanMu, rec, idmap, weight, op>>
R5(p) == /\ pc[p] = "r5"
         /\ \/ /\ pc' = [pc EXCEPT ![p] = "r6"] /\ rec' = TRUE
               /\ weight' = (IF loc[p].old /\ Variant # "recount" THEN weight ELSE weight + 1)
               /\ UNCHANGED <<nfail, opMu>>
            \/ Fail /\ pc' = [pc EXCEPT ![p] = "rfail"] /\ opMu' = "" /\ UNCHANGED <<rec, weight>>
         /\ UNCHANGED <<map, nextInst, stopped, reserved, cleanMu, idmap, op, loc>>
R6(p) == /\ Go(p, "r6", "r7") /\ idmap' = TRUE /\ opMu' = ""
         /\ UNCHANGED <<map, nextInst, stopped, reserved, cleanMu, rec, weight, nfail, op, loc>>
R7(p) == /\ Go(p, "r7", "r8") /\ map' = nextInst /\ nextInst' = nextInst + 1
         /\ UNCHANGED <<stopped, reserved, cleanMu, opMu, rec, idmap, weight, nfail, op, loc>>
R8(p) == /\ Go(p, "r8", "done") /\ reserved' = FALSE /\ Out(p, "ok")
         /\ UNCHANGED <<map, nextInst, stopped, cleanMu, opMu, rec, idmap, weight, nfail, op>>
RFail(p) == /\ Go(p, "rfail", "done") /\ reserved' = FALSE /\ Out(p, "refused")
            /\ UNCHANGED <<map, nextInst, stopped, cleanMu, opMu, rec, idmap, weight, nfail, op>>
\* -------------------------------------------------------------- Unregister
U1(p) == /\ pc[p] = "start" /\ op[p] = "unreg"
         /\ loc' = [loc EXCEPT ![p].inst = map]
         /\ pc' = [pc EXCEPT ![p] = "u2"]
         /\ UNCHANGED <<map, nextInst, stopped, reserved, cleanMu, opMu, rec, idmap, weight, nfail, op>>
U2(p) == /\ Go(p, "u2", "u3") /\ stopped' = IF loc[p].inst = None THEN stopped ELSE stopped \cup {loc[p].inst}
         /\ UNCHANGED <<map, nextInst, reserved, cleanMu, opMu, rec, idmap, weight, nfail, op, loc>>
U3(p) == /\ Go(p, "u3", "u4") /\ Free(cleanMu) /\ cleanMu' = p
         /\ UNCHANGED <<map, nextInst, stopped, reserved, opMu, rec, idmap, weight, nfail, op, loc>>
U4(p) == /\ pc[p] = "u4"
         /\ IF Variant # "nocurrent" /\ ((map # None /\ map # loc[p].inst) \/ (map = None /\ reserved))
              THEN pc' = [pc EXCEPT ![p] = "unlock"] /\ UNCHANGED map
              ELSE pc' = [pc EXCEPT ![p] = "b1"] /\ map' = None
         /\ UNCHANGED <<nextInst, stopped, reserved, cleanMu, opMu, rec, idmap, weight, nfail, op, loc>>
\* AddressBook.Unregister (for Unregister and for stale records)
B1(p) == /\ Go(p, "b1", "b2") /\ Free(opMu) /\ opMu' = p
         /\ UNCHANGED <<map, nextInst, stopped, reserved, cleanMu, rec, idmap, weight, nfail, op, loc>>
B2(p) == /\ pc[p] = "b2"      \* HGET and HDEL; of several removals one gets the record
         /\ IF rec THEN rec' = FALSE /\ pc' = [pc EXCEPT ![p] = "b3"] /\ UNCHANGED <<idmap, opMu>>
                   ELSE idmap' = FALSE /\ opMu' = "" /\ pc' = [pc EXCEPT ![p] = "unlock"] /\ UNCHANGED rec
         /\ UNCHANGED <<map, nextInst, stopped, reserved, cleanMu, weight, nfail, op, loc>>
B3(p) == /\ Go(p, "b3", "b4") /\ weight' = weight - 1
         /\ UNCHANGED <<map, nextInst, stopped, reserved, cleanMu, opMu, rec, idmap, nfail, op, loc>>
B4(p) == /\ Go(p, "b4", "unlock") /\ idmap' = FALSE /\ opMu' = ""
         /\ UNCHANGED <<map, nextInst, stopped, reserved, cleanMu, rec, weight, nfail, op, loc>>
Unlock(p) == /\ Go(p, "unlock", "done") /\ cleanMu' = IF cleanMu = p THEN "" ELSE cleanMu
             /\ UNCHANGED <<map, nextInst, stopped, reserved, opMu, rec, idmap, weight, nfail, op, loc>>
\* ------------------------------------------------------ a call to the id
C1(p) == /\ pc[p] = "start" /\ op[p] = "call"
         /\ pc' = [pc EXCEPT ![p] = IF map # None THEN "done" ELSE "c2"]
         /\ UNCHANGED <<map, nextInst, stopped, reserved, cleanMu, opMu, rec, idmap, weight, nfail, op, loc>>
C2(p) == /\ pc[p] = "c2"
         /\ pc' = [pc EXCEPT ![p] = IF idmap \/ rec THEN "c3" ELSE "done"]
         /\ UNCHANGED <<map, nextInst, stopped, reserved, cleanMu, opMu, rec, idmap, weight, nfail, op, loc>>
C3(p) == /\ Go(p, "c3", "c4") /\ Free(cleanMu) /\ cleanMu' = p
         /\ UNCHANGED <<map, nextInst, stopped, reserved, opMu, rec, idmap, weight, nfail, op, loc>>
C4(p) == /\ pc[p] = "c4"
         /\ pc' = [pc EXCEPT ![p] = IF (map # None \/ reserved) /\ Variant # "noclean" THEN "unlock" ELSE "b1"]
         /\ UNCHANGED <<map, nextInst, stopped, reserved, cleanMu, opMu, rec, idmap, weight, nfail, op, loc>>
Next == \E p \in Procs : \/ R1(p) \/ R2(p) \/ R3(p) \/ R4(p) \/ R5(p) \/ R6(p) \/ R7(p) \/ R8(p) \/ RFail(p)
                         \/ U1(p) \/ U2(p) \/ U3(p) \/ U4(p) \/ B1(p) \/ B2(p) \/ B3(p) \/ B4(p) \/ Unlock(p)
                         \/ C1(p) \/ C2(p) \/ C3(p) \/ C4(p)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Rest == \A p \in Procs : pc[p] = "done"
\* R01, R02
Agree == Rest => /\ map # None => rec /\ idmap
                 /\ idmap => rec
                 /\ weight = (IF rec THEN 1 ELSE 0)
\* a record without an actor is only one that nobody has called yet
Stale == Rest /\ (\E p \in Procs : op[p] = "call") /\ nfail = 0 /\ (\A p \in Procs : op[p] # "reg") => ~rec
\* R04: at most one instance at a time; the running one has not been stopped
One == nextInst - 1 - Cardinality(stopped) <= 1
Alive == Rest => map \notin stopped
Inv == Agree /\ Stale /\ One /\ Alive
=============================================================================
