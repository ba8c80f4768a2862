-------------------------- MODULE ClusterTrace --------------------------
(* Decides whether recorded executions of the real code are behaviours of Cluster. *)
EXTENDS Cluster, Json, IOUtils
VARIABLES tid, l
tvars == <<vars, tid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
PropEnv == IOEnv.PROP
N == Len(Traces)
Evs(i) == Traces[i].ev
TInit == tid \in 1..N /\ Init0(Traces[tid].slack) /\ l = 1 /\ TLCSet(tid, 1)
Cur == Evs(tid)[l]
Is(e) == l <= Len(Evs(tid)) /\ Cur.e = e /\ l' = l + 1 /\ UNCHANGED tid
SetOf(s) == {s[i] : i \in 1..Len(s)}
TNext ==
  \/ Is("cfg") /\ Cfg(SetOf(Cur.known))
  \/ Is("node") /\ Node(Cur.nd, Cur.at, Cur.up, Cur.t)
  \/ Is("rinv") /\ RInv(Cur.x, Cur.nd, Cur.id, Cur.ty, Cur.w, Cur.lim, Cur.uniq, Cur.t)
  \/ Is("built") /\ Built(Cur.x, Cur.nd)
  \/ Is("rret") /\ RRet(Cur.x, Cur.ok, Cur.t)
  \/ Is("raw") /\ Raw(Cur.x, Cur.nd, Cur.id, Cur.ty, Cur.w, Cur.ok, Cur.t)
  \/ Is("uinv") /\ UInv(Cur.u, Cur.nd, Cur.id, Cur.t)
  \/ Is("uret") /\ URet(Cur.u, Cur.t)
  \/ Is("stop") /\ Stop(Cur.x, Cur.t)
  \/ Is("einv") /\ EInv(Cur.u, Cur.nd, Cur.t)
  \/ Is("eret") /\ ERet(Cur.u, Cur.nd, Cur.t)
  \/ Is("kill") /\ Kill(Cur.nd, Cur.t)
  \/ Is("fault") /\ Fault(Cur.on, Cur.t)
  \/ Is("inv") /\ Inv(Cur.m, Cur, Cur.t)
  \/ Is("cancel") /\ Cancel(Cur.m, Cur.t)
  \/ Is("hs") /\ Hs(Cur.m, Cur.x, Cur.same, Cur.t)
  \/ Is("he") /\ He(Cur.m, Cur.x, Cur.pan, Cur.t)
  \/ Is("ret") /\ Ret(Cur.m, Cur.ok, Cur.err, Cur.same, Cur.t)
  \/ Is("put") /\ Put(Cur.x, Cur.k, Cur.v)
  \/ Is("get") /\ Get(Cur.x, Cur.k, Cur.v)
  \/ Is("who") /\ Who(Cur.x, Cur.id, Cur.ty, Cur.own)
  \/ Is("view") /\ View(Cur)
  \/ Is("quiet") /\ Quiet(Cur.t)
  \/ Is("end") /\ UNCHANGED vars
  \* the process died or stopped making progress: legal under no property
  \/ (Is("crash") \/ Is("stuck")) /\ P = "NONE" /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_tvars
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Rejected == {i \in 1..N : TLCGet(i) # Len(Evs(i)) + 1}
Accepted ==
  /\ PrintT("CHECKED " \o ToString(N))
  /\ \A i \in Rejected : PrintT("REJECTED " \o ToString(i) \o " AT " \o ToString(TLCGet(i)))
=============================================================================
