------------------------------- MODULE ActorMC -------------------------------
(***************************************************************************)
(* ActorSys closed by a bounded environment: two actors, a root call whose *)
(* handler calls on, a send, a re-entrant call, a timer and stops, with    *)
(* time passing in steps whenever the system is at rest.  With all guards  *)
(* on, the properties hold as invariants, and no behaviour runs into a     *)
(* corner in which an operation could never return.                        *)
(***************************************************************************)
EXTENDS ActorSys
CONSTANTS Step, MaxT, Use     \* Use: which of the operations below take part
All == "ALL"
VARIABLE rest                 \* the system is known to be at rest
mvars == <<vars, rest>>
Acts == {"a", "b"}
MInit == /\ slack = 0 /\ now = 0 /\ ast = [a \in Acts |-> "live"] /\ aty = [a \in Acts |-> "T"] /\ forced = {}
         /\ run = [a \in Acts |-> {}] /\ idle = [a \in Acts |-> 0] /\ msgs = <<>> /\ exits = <<>> /\ tms = <<>> /\ evs = <<>>
         /\ rest = FALSE
Off == rest' = FALSE
Begin ==
  \/ "call" \in Use /\ Inv("m", "call", "a", "", "ev", "", "", "", Inf, "", "", now)
  \/ "nest" \in Use /\ "m" \in run["a"] /\ \E to \in Acts : Inv("n", "ncall", to, "", "ev", "a", "a", "m", Inf, "", "", now)
  \/ "send" \in Use /\ Inv("s", "send", "b", "", "ev", "", "", "", Inf, "", "", now)
  \/ "sym" \in Use /\ Inv("y", "call", "", "T", "ev", "", "", "", Inf, "", "", now)
  \/ "re" \in Use /\ "m" \in run["a"] /\ Inv("r", "re", "b", "", "ev", "a", "a", "", Inf, "", "", now)
  \/ "stop" \in Use /\ \E x \in {"x1", "x2"} : XInv(x, "b", now)
  \/ "timer" \in Use /\ "tm" \notin DOMAIN tms /\ TmReg("tm", "b", Step, 0, now)
  \/ "timer" \in Use /\ "tm" \in DOMAIN tms /\ tms["tm"].st = "on" /\ TmCancel("tm", now)
  \/ "cancel" \in Use /\ "m" \in Ms /\ msgs["m"].cx = Inf /\ Cancel("m", now)
System ==
  \/ \E m \in Ms : msgs[m].kind # "re" /\ msgs[m].op = "open" /\ \E ok, merr \in BOOLEAN : Ret(m, ok, merr, IF ok /\ ~merr THEN m ELSE "", now)
  \/ \E m \in Ms : msgs[m].kind = "re" /\ msgs[m].op = "open" /\ ReRet(m, now)
  \/ \E m \in Ms, a \in Acts : msgs[m].st = "new" /\ HS(a, m, "ev", now)
  \/ \E m \in Ms, a \in Acts : m \in run[a] /\ ~(\E n \in Ms : msgs[n].kind = "ncall" /\ msgs[n].op = "open" /\ msgs[n].root = msgs[m].root /\ m = "m")
                               /\ \E out \in {"ok", "panic"} : HE(a, m, out, now)
  \/ \E m \in Ms : msgs[m].kind = "re" /\ msgs[m].op # "open" /\ run["a"] = {} /\ Live("a") /\ \E ok \in BOOLEAN : FutDone(m, ok, m, now)
  \/ \E x \in DOMAIN exits : XRet(x, now)
  \/ \E tm \in DOMAIN tms : TS(tm, "b", now)
  \/ \E tm \in DOMAIN tms : tm \in run["b"] /\ TE(tm, "b", now)
\* a call returns at the latest when its time is over, before anything else can be at rest
Urgent == \E m \in Ms : Waiting(m) /\ now >= Limit(m)
Settle == ~rest /\ ~Urgent /\ Quiet(now) /\ rest' = TRUE
Tick == rest /\ now + Step <= MaxT /\ now' = now + Step /\ rest' = FALSE
        /\ UNCHANGED <<slack, ast, aty, forced, idle, run, msgs, exits, tms, evs>>
MNext == (Begin /\ Off) \/ (System /\ Off) \/ Settle \/ Tick
MSpec == MInit /\ [][MNext]_mvars

OneAtATime == \A a \in Acts : Cardinality(run[a]) <= 1                                               \* A01
Once == \A m \in Ms : \A a, b \in Acts : m \in run[a] /\ m \in run[b] => a = b                       \* A02
Refusal == \A m \in Ms : (msgs[m].op = "err" /\ ~msgs[m].mc) => msgs[m].st = "new"                   \* A02
Silent == \A a \in Acts : (Stopped(a) /\ a \notin forced) => run[a] = {} /\ Pending(a) = {}          \* A04
Whole == \A m \in Ms : (msgs[m].kind = "call" /\ msgs[m].op = "ok") => TreeDone(m)                   \* A05
Bounded == \A m \in Ms : (msgs[m].kind = "call" /\ msgs[m].op = "open") => now <= Limit(m)           \* A06
Cycle == \A a \in Acts, m \in Ms : m \in run[a] => msgs[m].org # a                                   \* A07
Replied == \A m \in Ms : (msgs[m].kind = "re" /\ msgs[m].fut = "ok") => msgs[m].st = "done"          \* A08
TimerOff == [][\A tm \in DOMAIN tms : (tms[tm].st = "off" /\ tm \notin run["b"]) => tm \notin run'["b"]]_mvars \* A10
\* no corner: as long as anything is open, something can happen
Corner == (\E m \in Ms : Waiting(m)) => (ENABLED(System) \/ ENABLED(Settle) \/ (rest /\ now + Step > MaxT) \/ (rest /\ ENABLED(Tick)))
\* goals
NoDrain == ~ \E a \in Acts : Stopped(a) /\ \E m \in Ms : msgs[m].to = a /\ msgs[m].st = "done"
NoTimeout == ~ \E m \in Ms : msgs[m].kind = "call" /\ msgs[m].op = "okerr"
NoCycle == ~ \E m \in Ms : msgs[m].kind = "ncall" /\ msgs[m].op = "err" /\ Live(msgs[m].to)
NoFuture == ~ \E m \in Ms : msgs[m].fut = "ok"
NoFire == ~ \E tm \in DOMAIN tms : tms[tm].fired > 0
=============================================================================
