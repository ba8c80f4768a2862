------------------------------ MODULE MutexMC ------------------------------
(* Mutex closed by clients that lock, unlock with the right, an old or a wrong value, and by failing redis, with time
   advancing in steps of Step. *)
EXTENDS Mutex
CONSTANTS Ops, Unlocks, Step, MaxT
All == "ALL"
VARIABLE now
mvars == <<vars, now>>
MInit == Init0(0) /\ now = 0
MNext == \/ \E x \in Ops : LInv(x, "k", FALSE, now) /\ UNCHANGED now
         \/ \E x \in DOMAIN lk, ok \in BOOLEAN : LRet(x, ok, TRUE, now) /\ UNCHANGED now
         \/ \E u \in Unlocks \ DOMAIN un, y \in DOMAIN lk : (lk[y].ok) /\ UInv(u, "k", y, now) /\ UNCHANGED now
         \/ \E u \in DOMAIN un, r \in BOOLEAN : ~un[u].ret /\ URet(u, r, now) /\ UNCHANGED now
         \/ ~bad /\ badt < 0 /\ Fail(TRUE, now) /\ UNCHANGED now
         \/ bad /\ Fail(FALSE, now) /\ UNCHANGED now
         \/ now < MaxT /\ Quiet(now + Step) /\ now' = now + Step
MSpec == MInit /\ [][MNext]_mvars
\* two operations hold the lock at the same time only if the first has expired or was released before
Owns(x) == lk[x].ok /\ ~lk[x].rel /\ ~lk[x].lost /\ now < lk[x].ret + Expiry /\ ~ \E u \in DOMAIN un : un[u].of = x /\ ~un[u].ret
Inv == \A x, y \in DOMAIN lk : (x # y /\ Owns(x) /\ Owns(y)) => FALSE
\* operations can always return: the guards leave an implementation a way out
Rest == \A x \in DOMAIN lk : lk[x].ret = Never => \E ok \in BOOLEAN : ENABLED(LRet(x, ok, TRUE, now)) \/ now + Step <= lk[x].inv + Bound
NoSecond == ~ \E x, y \in DOMAIN lk : x # y /\ lk[x].ok /\ lk[y].ok /\ ~lk[x].rel /\ lk[y].inv > lk[x].ret
NoRel == \A x \in DOMAIN lk : ~lk[x].rel
=============================================================================
