---------------------------- MODULE VersionTrace ----------------------------
EXTENDS Version, Sequences, Json, IOUtils
VARIABLES tid, l
tvars == <<vars, tid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
PropEnv == IOEnv.PROP
N == Len(Traces)
Evs(i) == Traces[i].ev
TInit == tid \in 1..N /\ Init /\ l = 1 /\ TLCSet(tid, 1)
Cur == Evs(tid)[l]
Is(e) == l <= Len(Evs(tid)) /\ Cur.e = e /\ l' = l + 1 /\ UNCHANGED tid
TNext ==
  \/ Is("rinv") /\ Inv(Cur.x, "reg", Cur.v)
  \/ Is("ninv") /\ Inv(Cur.x, "next", Cur.v)
  \/ Is("ginv") /\ Inv(Cur.x, "get", Cur.v)
  \/ Is("rret") /\ RRet(Cur.x)
  \/ Is("nret") /\ NRet(Cur.x, Cur.r)
  \/ Is("gret") /\ GRet(Cur.x, Cur.ok, Cur.r, Cur.same)
  \/ Is("quiet") /\ Quiet
  \/ Is("end") /\ UNCHANGED vars
  \/ (Is("crash") \/ Is("stuck")) /\ P = "NONE" /\ UNCHANGED vars
  \* unobservable steps, as late as possible: just before an event that may depend on them
  \/ l <= Len(Evs(tid)) /\ Cur.e \in {"rret", "nret", "gret"} /\ Hidden /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_tvars
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Rejected == {i \in 1..N : TLCGet(i) # Len(Evs(i)) + 1}
Accepted ==
  /\ PrintT("CHECKED " \o ToString(N))
  /\ \A i \in Rejected : PrintT("REJECTED " \o ToString(i) \o " AT " \o ToString(TLCGet(i)))
=============================================================================
