---------------------------- MODULE FifoTrace ----------------------------
EXTENDS Fifo, Sequences, Json, IOUtils
VARIABLES tid, l
tvars == <<vars, tid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
PropEnv == IOEnv.PROP
N == Len(Traces)
Evs(i) == Traces[i].ev
TInit == tid \in 1..N /\ Init /\ l = 1 /\ TLCSet(tid, 1)
Cur == Evs(tid)[l]
Is(e) == l <= Len(Evs(tid)) /\ Cur.e = e /\ l' = l + 1 /\ UNCHANGED tid
TNext ==
  \/ Is("pinv") /\ PInv(Cur.x)
  \/ Is("pret") /\ PRet(Cur.x)
  \/ Is("ginv") /\ GInv
  \/ Is("got") /\ Got(Cur.x)
  \/ Is("quiet") /\ Quiet
  \/ Is("end") /\ UNCHANGED vars
  \/ (Is("crash") \/ Is("stuck")) /\ P = "NONE" /\ UNCHANGED vars

TSpec == TInit /\ [][TNext]_tvars
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Rejected == {i \in 1..N : TLCGet(i) # Len(Evs(i)) + 1}
Accepted ==
  /\ PrintT("CHECKED " \o ToString(N))
  /\ \A i \in Rejected : PrintT("REJECTED " \o ToString(i) \o " AT " \o ToString(TLCGet(i)))
=============================================================================
