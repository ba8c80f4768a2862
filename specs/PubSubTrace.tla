-------------------------- MODULE PubSubTrace --------------------------
(* Decides whether recorded executions of the real code are behaviours of PubSub. *)
EXTENDS PubSub, Json, IOUtils
VARIABLES tid, l
tvars == <<vars, tid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
PropEnv == IOEnv.PROP
N == Len(Traces)
Evs(i) == Traces[i].ev
TInit == tid \in 1..N /\ Init0(Traces[tid].slack) /\ l = 1 /\ TLCSet(tid, 1)
Cur == Evs(tid)[l]
Is(e) == l <= Len(Evs(tid)) /\ Cur.e = e /\ l' = l + 1 /\ UNCHANGED tid
SetOf(s) == {s[i] : i \in 1..Len(s)}
TNext ==
  \/ Is("oinv") /\ OInv(Cur.o, Cur.tp, Cur.ttl, Cur.mgr) /\ Track
  \/ Is("oret") /\ ORet(Cur.o) /\ Track
  \/ Is("sinv") /\ SInv(Cur.sb, Cur.x, Cur.tp, Cur.ch, Cur.ttl, Cur.mgr, Cur.raw, Cur.beg) /\ Track
  \/ Is("sret") /\ SRet(Cur.sb, Cur.ok) /\ Track
  \/ Is("pinv") /\ PInv(Cur.m, Cur.tp, Cur.ev, Cur.mgr, Cur.t) /\ Track
  \/ Is("pret") /\ PRet(Cur.m, Cur.ok, Cur.t) /\ Track
  \/ Is("hs") /\ Hs(Cur.m, Cur.x, Cur.same) /\ Track
  \/ Is("he") /\ He(Cur.m, Cur.x) /\ Track
  \/ Is("stinv") /\ StInv(SetOf(Cur.xs), Cur.t) /\ Track
  \/ Is("stret") /\ StRet(Cur.x) /\ Track
  \/ Is("cinv") /\ CInv(Cur.sb, Cur.t) /\ Track
  \/ Is("cret") /\ CRet(Cur.sb, Cur.ok) /\ Track
  \/ Is("kinv") /\ KInv(Cur.k, Cur.tp, Cur.mgr)
  \/ Is("kret") /\ KRet(Cur.k, Cur.ok)
  \/ Is("calm") /\ Calm(Cur.t)
  \/ Is("adv") /\ Adv(Cur.ms) /\ Track
  \/ Is("pfault") /\ PFault(Cur.on) /\ Track
  \/ Is("fault") /\ Fault(Cur.on) /\ Track
  \/ Is("look") /\ Look({[tp |-> o.tp, ex |-> o.ex, mem |-> o.mem, gs |-> SetOf(o.gs), ttl |-> o.ttl, held |-> SetOf(o.held)] : o \in SetOf(Cur.l)}) /\ Track
  \/ Is("quiet") /\ Quiet
  \/ Is("end") /\ UNCHANGED vars
  \* the process died or stopped making progress: legal under no property
  \/ (Is("crash") \/ Is("stuck")) /\ P = "NONE" /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Rejected == {i \in 1..N : TLCGet(i) # Len(Evs(i)) + 1}
Accepted ==
  /\ PrintT("CHECKED " \o ToString(N))
  /\ \A i \in Rejected : PrintT("REJECTED " \o ToString(i) \o " AT " \o ToString(TLCGet(i)))
=============================================================================
