-------------------------- MODULE RpcTrace --------------------------
(* Decides whether recorded executions of the real code are behaviours of Rpc. *)
EXTENDS Rpc, Json, IOUtils
VARIABLES tid, l
tvars == <<vars, tid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
PropEnv == IOEnv.PROP
N == Len(Traces)
Evs(i) == Traces[i].ev
TInit == tid \in 1..N /\ Init0(Traces[tid].slack) /\ l = 1 /\ TLCSet(tid, 1)
Cur == Evs(tid)[l]
Is(e) == l <= Len(Evs(tid)) /\ Cur.e = e /\ l' = l + 1 /\ UNCHANGED tid
SetOf(s) == {s[i] : i \in 1..Len(s)}
TNext ==
  \/ Is("cfg") /\ Cfg(Cur.max)
  \/ Is("cinv") /\ CInv(Cur.x, Cur.k, Cur.lim, Cur.dl, Cur.t)
  \/ Is("cancel") /\ Cancel(Cur.x, Cur.t)
  \/ Is("hs") /\ Hs(Cur.x, Cur.same, Cur.t)
  \/ Is("he") /\ He(Cur.x, Cur.t)
  \/ Is("cret") /\ CRet(Cur.x, Cur.err, Cur.match, Cur.t)
  \/ Is("net") /\ Net(Cur.up, Cur.t)
  \/ Is("quiet") /\ Quiet(Cur.t)
  \/ Is("end") /\ UNCHANGED vars
  \* the process died or stopped making progress: legal under no property
  \/ (Is("crash") \/ Is("stuck")) /\ P = "NONE" /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Rejected == {i \in 1..N : TLCGet(i) # Len(Evs(i)) + 1}
Accepted ==
  /\ PrintT("CHECKED " \o ToString(N))
  /\ \A i \in Rejected : PrintT("REJECTED " \o ToString(i) \o " AT " \o ToString(TLCGet(i)))
=============================================================================
