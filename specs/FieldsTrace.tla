-------------------------- MODULE FieldsTrace --------------------------
(* Decides whether recorded executions of the real code are behaviours of Fields. *)
EXTENDS Fields, Json, IOUtils
VARIABLES tid, l
tvars == <<vars, tid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
PropEnv == IOEnv.PROP
N == Len(Traces)
Evs(i) == Traces[i].ev
TInit == tid \in 1..N /\ Init /\ l = 1 /\ TLCSet(tid, 1)
Cur == Evs(tid)[l]
Is(e) == l <= Len(Evs(tid)) /\ Cur.e = e /\ l' = l + 1 /\ UNCHANGED tid
SetOf(s) == {s[i] : i \in 1..Len(s)}
As == [i \in 1..Len(Cur.as) |-> [k |-> Cur.as[i].k, c |-> Cur.as[i].c, ok |-> Cur.as[i].ok, fits |-> SetOf(Cur.as[i].fits)]]
TNext ==
  \/ Is("fields") /\ Fields(Cur.side, As, Cur.err) /\ Same(Cur.same)
  \/ Is("map") /\ Map(Cur.side, As, Cur.err) /\ Same(Cur.same)
  \/ Is("header") /\ Header(Cur.side, As, Cur.hok, Cur.err) /\ Same(Cur.same)
  \/ Is("body") /\ Body(Cur.side, Cur.v, Cur.err) /\ Same(Cur.same)
  \/ Is("rbody") /\ RBody(Cur.side, Cur.v)
  \/ Is("raw") /\ Raw(Cur.side)
  \/ Is("obj") /\ Obj(Cur.side, Cur.c, Cur.ok, Cur.err) /\ Same(Cur.same)
  \/ Is("robj") /\ RObj(Cur.side, Cur.ok, Cur.c)
  \/ Is("rebuild") /\ UNCHANGED vars
  \/ Is("get") /\ Get(Cur.side, Cur.k, Cur.ty, Cur.c)
  \/ Is("gmap") /\ GMap(Cur.side, Cur.ok, Cur.m)
  \/ Is("quiet") /\ UNCHANGED vars
  \/ Is("end") /\ UNCHANGED vars
  \* the process died or stopped making progress: legal under no property
  \/ (Is("crash") \/ Is("stuck")) /\ P = "NONE" /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Rejected == {i \in 1..N : TLCGet(i) # Len(Evs(i)) + 1}
Accepted ==
  /\ PrintT("CHECKED " \o ToString(N))
  /\ \A i \in Rejected : PrintT("REJECTED " \o ToString(i) \o " AT " \o ToString(TLCGet(i)))
=============================================================================
