-------------------------- MODULE TickTrace --------------------------
(* Decides whether recorded executions of the real code are behaviours of Tick. *)
EXTENDS Tick, Json, IOUtils
VARIABLES tid, l
tvars == <<vars, tid, l>>
Traces == JsonDeserialize(IOEnv.TRACE)
PropEnv == IOEnv.PROP
N == Len(Traces)
Evs(i) == Traces[i].ev
TInit == tid \in 1..N /\ Init0(Traces[tid].slack) /\ l = 1 /\ TLCSet(tid, 1)
Cur == Evs(tid)[l]
Is(e) == l <= Len(Evs(tid)) /\ Cur.e = e /\ l' = l + 1 /\ UNCHANGED tid
SetOf(s) == {s[i] : i \in 1..Len(s)}
TNext ==
  \/ Is("task") /\ Task(Cur.k, Cur.run, Cur.due, Cur.ival)
  \/ Is("hooks") /\ Hooks(Cur.b, Cur.e2)
  \/ Is("kinv") /\ OpInv(Cur.x, Cur.op, SetOf(Cur.ks), Cur.t)
  \/ Is("kret") /\ OpRet(Cur.x, Cur.ok, Cur.t)
  \/ Is("rm") /\ Rm(Cur.k)
  \/ Is("kb") /\ Before(Cur.k, Cur.end, Cur.p, Cur.t)
  \/ Is("kh") /\ Handler(Cur.k, Cur.t)
  \/ Is("khe") /\ HandlerEnd(Cur.k, Cur.out, Cur.t)
  \/ Is("kx") /\ Exc(Cur.k, Cur.t)
  \/ Is("ke") /\ After(Cur.k, Cur.p, Cur.t)
  \/ Is("quiet") /\ Quiet(Cur.t)
  \/ Is("end") /\ UNCHANGED vars
  \* the process died or stopped making progress: legal under no property
  \/ (Is("crash") \/ Is("stuck")) /\ P = "NONE" /\ UNCHANGED vars
  \* unobservable steps, as late as possible: just before an event that may depend on them
  \/ l <= Len(Evs(tid)) /\ Cur.e \in {"kret", "kb", "kh", "quiet"} /\ Hidden /\ UNCHANGED <<tid, l>>
TSpec == TInit /\ [][TNext]_tvars
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Rejected == {i \in 1..N : TLCGet(i) # Len(Evs(i)) + 1}
Accepted ==
  /\ PrintT("CHECKED " \o ToString(N))
  /\ \A i \in Rejected : PrintT("REJECTED " \o ToString(i) \o " AT " \o ToString(TLCGet(i)))
=============================================================================
