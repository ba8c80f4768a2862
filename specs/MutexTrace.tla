-------------------------- MODULE MutexTrace --------------------------
(* Decides whether recorded executions of the real code are behaviours of Mutex. *)
EXTENDS Mutex, Json, IOUtils
VARIABLES tid, l
tvars == <<vars, tid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
PropEnv == IOEnv.PROP
N == Len(Traces)
Evs(i) == Traces[i].ev
TInit == tid \in 1..N /\ Init0(Traces[tid].slack) /\ l = 1 /\ TLCSet(tid, 1)
Cur == Evs(tid)[l]
Is(e) == l <= Len(Evs(tid)) /\ Cur.e = e /\ l' = l + 1 /\ UNCHANGED tid
SetOf(s) == {s[i] : i \in 1..Len(s)}
TNext ==
  \/ Is("linv") /\ LInv(Cur.x, Cur.k, Cur.canc, Cur.t)
  \/ Is("lret") /\ LRet(Cur.x, Cur.ok, Cur.fresh, Cur.t)
  \/ Is("uinv") /\ UInv(Cur.x, Cur.k, Cur.of, Cur.t)
  \/ Is("uret") /\ URet(Cur.x, Cur.r, Cur.t)
  \/ Is("fail") /\ Fail(Cur.on, Cur.t)
  \/ Is("quiet") /\ Quiet(Cur.t)
  \/ Is("end") /\ UNCHANGED vars
  \* the process died or stopped making progress: legal under no property
  \/ (Is("crash") \/ Is("stuck")) /\ P = "NONE" /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Rejected == {i \in 1..N : TLCGet(i) # Len(Evs(i)) + 1}
Accepted ==
  /\ PrintT("CHECKED " \o ToString(N))
  /\ \A i \in Rejected : PrintT("REJECTED " \o ToString(i) \o " AT " \o ToString(TLCGet(i)))
=============================================================================
