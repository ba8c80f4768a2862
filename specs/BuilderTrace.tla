---------------------------- MODULE BuilderTrace ----------------------------
EXTENDS Builder, Sequences, Json, IOUtils
VARIABLES tid, l
tvars == <<vars, tid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
PropEnv == IOEnv.PROP
N == Len(Traces)
Evs(i) == Traces[i].ev
TInit == tid \in 1..N /\ Init /\ l = 1 /\ TLCSet(tid, 1)
Cur == Evs(tid)[l]
Is(e) == l <= Len(Evs(tid)) /\ Cur.e = e /\ l' = l + 1 /\ UNCHANGED tid
TNext ==
  \/ Is("tmpl") /\ Tmpl(Cur.ty, Cur.opts)
  \/ Is("bnew") /\ New(Cur.b, Cur.ty)
  \/ Is("bopt") /\ Opt(Cur.b, Cur.k, Cur.v)
  \/ Is("bid") /\ Id(Cur.b, Cur.v)
  \/ Is("bty") /\ Ty(Cur.b, Cur.v)
  \/ Is("bget") /\ Get(Cur.b, Cur.k, Cur.r)
  \/ Is("bread") /\ Read(Cur.b, Cur.id, Cur.ty, Cur.opts)
  \/ Is("built") /\ Built(Cur.id, Cur.ty, Cur.opts)
  \/ Is("breg") /\ UNCHANGED vars
  \/ Is("tread") /\ TRead(Cur.ty, Cur.opts, Cur.id, Cur.name)
  \/ Is("quiet") /\ UNCHANGED vars
  \/ Is("end") /\ UNCHANGED vars
  \/ (Is("crash") \/ Is("stuck")) /\ P = "NONE" /\ UNCHANGED vars

TSpec == TInit /\ [][TNext]_tvars
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Rejected == {i \in 1..N : TLCGet(i) # Len(Evs(i)) + 1}
Accepted ==
  /\ PrintT("CHECKED " \o ToString(N))
  /\ \A i \in Rejected : PrintT("REJECTED " \o ToString(i) \o " AT " \o ToString(TLCGet(i)))
=============================================================================
