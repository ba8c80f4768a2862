-------------------------- MODULE ReporterTrace --------------------------
(* Decides whether recorded executions of the real code are behaviours of Reporter. *)
EXTENDS Reporter, Json, IOUtils
VARIABLES tid, l
tvars == <<vars, tid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
PropEnv == IOEnv.PROP
N == Len(Traces)
Evs(i) == Traces[i].ev
TInit == tid \in 1..N /\ Init0(Traces[tid].slack) /\ l = 1 /\ TLCSet(tid, 1)
Cur == Evs(tid)[l]
Is(e) == l <= Len(Evs(tid)) /\ Cur.e = e /\ l' = l + 1 /\ UNCHANGED tid
SetOf(s) == {s[i] : i \in 1..Len(s)}
TNext ==
  \/ Is("cfg") /\ Cfg(Cur.slow)
  \/ Is("rinv") /\ RInv(Cur.x, Cur.s2)
  \/ Is("drop") /\ Drop(Cur.x)
  \/ Is("rret") /\ RRet(Cur.x, Cur.drop)
  \/ Is("app") /\ App(Cur.x, Cur.t)
  \/ Is("appe") /\ AppEnd(Cur.x, Cur.t)
  \/ Is("fl") /\ Flush(Cur.t)
  \/ Is("fle") /\ FlushEnd(Cur.t)
  \/ Is("cinv") /\ CInv(Cur.x)
  \/ Is("cret") /\ CRet(Cur.x)
  \/ Is("clo") /\ Closed
  \/ Is("quiet") /\ Quiet(Cur.t)
  \/ Is("end") /\ End
  \* the process died or stopped making progress: legal under no property
  \/ (Is("crash") \/ Is("stuck")) /\ P = "NONE" /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Rejected == {i \in 1..N : TLCGet(i) # Len(Evs(i)) + 1}
Accepted ==
  /\ PrintT("CHECKED " \o ToString(N))
  /\ \A i \in Rejected : PrintT("REJECTED " \o ToString(i) \o " AT " \o ToString(TLCGet(i)))
=============================================================================
