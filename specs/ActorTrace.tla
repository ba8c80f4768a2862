----------------------------- MODULE ActorTrace -----------------------------
(* Decides whether recorded executions of the real runtime are behaviours of ActorSys. *)
EXTENDS ActorSys, Json, IOUtils

VARIABLES tid, l
tvars == <<vars, tid, l>>

Traces == JsonDeserialize(IOEnv.TRACE)
PropEnv == IOEnv.PROP
N == Len(Traces)
Evs(i) == Traces[i].ev

TInit == /\ tid \in 1..N
         /\ Init0(Traces[tid].slack)
         /\ l = 1
         /\ TLCSet(tid, 1)

Cur == Evs(tid)[l]
Is(e) == l <= Len(Evs(tid)) /\ Cur.e = e /\ l' = l + 1 /\ UNCHANGED tid

Abs(d) == IF d < 0 THEN Inf ELSE d

TNext ==
  \/ Is("reg") /\ Reg(Cur.a, Cur.ty, Cur.t)
  \/ Is("inv") /\ Inv(Cur.m, Cur.kind, Cur.to, Cur.ty, Cur.ev, Cur.by, Cur.org, Cur.p, Abs(Cur.dl), Cur.px, Cur.own, Cur.t)
  \/ Is("ret") /\ Ret(Cur.m, Cur.ok, Cur.merr, Cur.res, Cur.t)
  \/ Is("rret") /\ ReRet(Cur.m, Cur.t)
  \/ Is("cancel") /\ Cancel(Cur.m, Cur.t)
  \/ Is("hs") /\ IF Cur.m \in Ms THEN HS(Cur.a, Cur.m, Cur.ev, Cur.t) ELSE Stray({"A02", "N01"}, Cur.t)
  \/ Is("he") /\ IF Cur.m \in Ms THEN HE(Cur.a, Cur.m, Cur.out, Cur.t) ELSE Stray({"A02", "N01"}, Cur.t)
  \/ Is("fc") /\ FutDone(Cur.m, Cur.ok, Cur.res, Cur.t)
  \/ Is("xinv") /\ XInv(Cur.x, Cur.a, Cur.t)
  \/ Is("xret") /\ XRet(Cur.x, Cur.t)
  \/ Is("onev") /\ EvReg(Cur.x, Cur.a, Cur.ev, Cur.t)
  \/ Is("onret") /\ EvRet(Cur.x, Cur.ok, Cur.t)
  \/ Is("tmreg") /\ TmReg(Cur.tm, Cur.a, Cur.due, Cur.ival, Cur.t)
  \/ Is("ts") /\ TS(Cur.tm, Cur.a, Cur.t)
  \/ Is("te") /\ TE(Cur.tm, Cur.a, Cur.t)
  \/ Is("tmcancel") /\ TmCancel(Cur.tm, Cur.t)
  \/ Is("tmstop") /\ TmStop(Cur.tm, Cur.t)
  \/ Is("tmreset") /\ TmReset(Cur.tm, Cur.ival, Cur.t)
  \/ Is("quiet") /\ Quiet(Cur.t)
  \/ Is("hung") /\ Hung(Cur.k)
  \/ Is("end") /\ UNCHANGED vars
  \* the process died or stopped making progress: legal under no property
  \/ Is("crash") /\ P = "NONE" /\ UNCHANGED vars
  \/ Is("stuck") /\ P = "NONE" /\ UNCHANGED vars

TSpec == TInit /\ [][TNext]_tvars

Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Rejected == {i \in 1..N : TLCGet(i) # Len(Evs(i)) + 1}
Accepted ==
  /\ PrintT("CHECKED " \o ToString(N))
  /\ \A i \in Rejected : PrintT("REJECTED " \o ToString(i) \o " AT " \o ToString(TLCGet(i)))
=============================================================================
