---------------------------- MODULE FutureTrace ----------------------------
EXTENDS Future, Json, IOUtils
VARIABLES tid, l
tvars == <<vars, tid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
PropEnv == IOEnv.PROP
N == Len(Traces)
Evs(i) == Traces[i].ev
TInit == tid \in 1..N /\ Init /\ l = 1 /\ TLCSet(tid, 1)
Cur == Evs(tid)[l]
Is(e) == l <= Len(Evs(tid)) /\ Cur.e = e /\ l' = l + 1 /\ UNCHANGED tid
\* a continuation's own future is of interest only if something is done to it; the others complete at rest
Refs == {Evs(tid)[i].f : i \in {j \in 1..Len(Evs(tid)) : Evs(tid)[j].e \in {"tinv", "cinv", "iinv"}}}
Todo == {c \in DOMAIN cbs : cbs[c].st = "done" /\ ~cbs[c].prop}
Leaves == Todo \ Refs
Step == \/ \E x \in DOMAIN comps : CompLin(x)
        \/ \E c \in Todo \cap Refs : Propagate(c)
        \/ Cur.e = "quiet" /\ Leaves # {} /\ Propagate(CHOOSE c \in Leaves : TRUE)
TNext ==
  \/ Is("new") /\ New(Cur.f)
  \/ Is("tinv") /\ ThenInv(Cur.c, Cur.f)
  \/ Is("tret") /\ ThenRet(Cur.c)
  \/ Is("cinv") /\ CompInv(Cur.x, Cur.f, Cur.v)
  \/ Is("cret") /\ CompRet(Cur.x)
  \/ Is("cb") /\ Cb(Cur.c, Cur.v)
  \/ Is("cbe") /\ CbEnd(Cur.c)
  \/ Is("iinv") /\ IscInv(Cur.x, Cur.f)
  \/ Is("iret") /\ IscRet(Cur.x, Cur.r)
  \/ Is("quiet") /\ Quiet
  \/ Is("end") /\ UNCHANGED vars
  \/ (Is("crash") \/ Is("stuck")) /\ P = "NONE" /\ UNCHANGED vars
  \* unobservable steps, as late as possible: just before an event that may depend on them
  \/ l <= Len(Evs(tid)) /\ Cur.e \in {"cret", "cb", "iret", "quiet"} /\ Step /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_tvars
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Rejected == {i \in 1..N : TLCGet(i) # Len(Evs(i)) + 1}
Accepted ==
  /\ PrintT("CHECKED " \o ToString(N))
  /\ \A i \in Rejected : PrintT("REJECTED " \o ToString(i) \o " AT " \o ToString(TLCGet(i)))
=============================================================================
