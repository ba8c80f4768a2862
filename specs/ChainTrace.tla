---------------------------- MODULE ChainTrace -----------------------------
EXTENDS Chain, Json, IOUtils
VARIABLES tid, l
tvars == <<vars, tid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
PropEnv == IOEnv.PROP
N == Len(Traces)
Evs(i) == Traces[i].ev
TInit == tid \in 1..N /\ Init /\ l = 1 /\ TLCSet(tid, 1)
Cur == Evs(tid)[l]
Is(e) == l <= Len(Evs(tid)) /\ Cur.e = e /\ l' = l + 1 /\ UNCHANGED tid
TNext ==
  \/ Is("chain") /\ Def(Cur.k, Cur.outs)
  \/ Is("oinv") /\ OnInv(Cur.x, Cur.k, Cur.ev)
  \/ Is("oret") /\ OnRet(Cur.x, Cur.ok)
  \/ Is("inv") /\ Inv(Cur.m, Cur.ev, Cur.kind)
  \/ Is("step") /\ Step(Cur.m, Cur.k, Cur.pos)
  \/ Is("ret") /\ Ret(Cur.m, Cur.ok)
  \/ Is("quiet") /\ Quiet
  \/ Is("end") /\ End
  \/ (Is("crash") \/ Is("stuck")) /\ P = "NONE" /\ UNCHANGED vars
  \* unobservable steps, as late as possible: just before an event that may depend on them
  \/ l <= Len(Evs(tid)) /\ Cur.e \in {"oret", "step"} /\ Hidden /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_tvars
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Rejected == {i \in 1..N : TLCGet(i) # Len(Evs(i)) + 1}
Accepted ==
  /\ PrintT("CHECKED " \o ToString(N))
  /\ \A i \in Rejected : PrintT("REJECTED " \o ToString(i) \o " AT " \o ToString(TLCGet(i)))
=============================================================================
