------------------------------ MODULE Cluster ------------------------------
(***************************************************************************)
(* Several nodes sharing one registry: registration, removal, shutdown,     *)
(* crash and restart of nodes, stale records, and the routing of calls and  *)
(* sends between them.                                                      *)
(*                                                                          *)
(* The registry is described by the set of registrations (rg): what has     *)
(* certainly been recorded, what may have been (an operation on it is still *)
(* under way, or redis failed in the middle), what certainly has not.  All  *)
(* promises are about the certain part.                                     *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANT P
G(ls, c) == IF P = "ALL" \/ P \in ls THEN (c) = TRUE ELSE TRUE
Never == -1
DrainMax == 10000
CallMax == 5000
Recover == 130000    \* the longest time until a lost connection is tried again

VARIABLES
  nd,     \* node -> [at, up, inc, t]
  rg,     \* registration -> record
  op,     \* removals and shutdowns under way
  ms,     \* message -> record
  known,  \* actor types the nodes can build
  flt,    \* redis is failing
  fltt,   \* how often it has begun to
  vals,   \* registration -> key -> what the actor has stored in its context
  Slack
vars == <<nd, rg, op, ms, known, flt, fltt, vals, Slack>>
Init0(sl) == vals = <<>> /\ nd = <<>> /\ rg = <<>> /\ op = <<>> /\ ms = <<>> /\ known = {} /\ flt = FALSE /\ fltt = 0 /\ Slack = sl
Cfg(k) == known' = k /\ UNCHANGED <<nd, rg, op, ms, flt, fltt, vals, Slack>>
SumOver(f, S) == LET RECURSIVE Go(_)
                     Go(R) == IF R = {} THEN 0 ELSE LET x == CHOOSE x \in R : TRUE IN f[x] + Go(R \ {x})
                 IN Go(S)

----------------------------------------------------------------------------
\* st: inv (being registered), ok, fail.   rem: no, may, yes (removed).   live: an actor runs behind it
Cert(x) == rg[x].st = "ok" /\ rg[x].rem = "no"
Poss(x) == rg[x].st # "fail" /\ rg[x].rem # "yes"
RG == DOMAIN rg
Takes(x) == Cert(x) /\ rg[x].live /\ ~rg[x].stop /\ nd[rg[x].n].up /\ nd[rg[x].n].inc = rg[x].inc
Listed(n) == \E x \in RG : rg[x].n = n /\ rg[x].st = "ok" /\ rg[x].inc = nd[n].inc      \* n is a registered node
MaybeListed(n) == \E x \in RG : rg[x].n = n /\ rg[x].st # "fail" /\ rg[x].inc = nd[n].inc
FaultSince(c) == flt \/ fltt > c
Fc == IF flt THEN fltt - 1 ELSE fltt

Node(n, at, up, t) ==
  /\ nd' = (n :> [at |-> at, up |-> up, t |-> t, inc |-> IF n \in DOMAIN nd THEN nd[n].inc ELSE 0]) @@ nd
  /\ UNCHANGED <<rg, op, ms, known, flt, fltt, vals, Slack>>

\* y is a reason to refuse x: same id or same unique type on the node, or one more of a limited type
Conflict(x, r, y) == y # x /\ Poss(y) /\ ((rg[y].n = r.n /\ rg[y].id = r.id) \/ (r.uniq /\ rg[y].n = r.n /\ rg[y].ty = r.ty))
AtLimit(x, r) == r.lim > 0 /\ Cardinality({y \in RG : y # x /\ Poss(y) /\ rg[y].ty = r.ty}) >= r.lim

\* what an earlier run of the node has left of this id: the new registration takes it over
Left(r) == {y \in RG : rg[y].st = "ok" /\ rg[y].rem # "yes" /\ ~rg[y].live /\ rg[y].n = r.n /\ rg[y].id = r.id /\ rg[y].ty = r.ty /\ rg[y].w = r.w}
RInv(x, n, id, ty, w, lim, uniq, t) ==
  /\ x \notin RG
  /\ LET r == [n |-> n, id |-> id, ty |-> ty, w |-> w, lim |-> lim, uniq |-> uniq, st |-> "inv", 
               \* a removal of this id, or a shutdown of this node, that is still under way may hit it
               rem |-> IF \E v \in DOMAIN op : op[v].id = id \/ (op[v].k = "ex" /\ op[v].n = n) THEN "may" ELSE "no", live |-> TRUE, stop |-> FALSE, gone |-> FALSE,
               built |-> FALSE, t |-> t, fc |-> Fc, inc |-> nd[n].inc,
               must |-> lim > 0 /\ Cardinality({y \in RG : Cert(y) /\ rg[y].ty = ty}) >= lim,
               why |-> flt \/ (\E y \in RG : Conflict(x, [n |-> n, id |-> id, ty |-> ty, uniq |-> uniq], y)) \/ AtLimit(x, [lim |-> lim, ty |-> ty])]
         upd == (x :> r) @@ rg IN
     \* the newcomer may be what another registration under way is refused for
     rg' = [z \in DOMAIN upd |-> IF z \in Left(r) /\ upd[z].rem = "no" THEN [upd[z] EXCEPT !.rem = "may"]
                                 ELSE IF z # x /\ upd[z].st = "inv" /\ ((upd[z].n = n /\ (upd[z].id = id \/ (upd[z].uniq /\ upd[z].ty = ty))) \/ (upd[z].lim > 0 /\ upd[z].ty = ty))
                                 THEN [upd[z] EXCEPT !.why = TRUE] ELSE upd[z]]
  /\ op' = [v \in DOMAIN op |-> IF op[v].k = "un" /\ op[v].n = n /\ op[v].id = id THEN [op[v] EXCEPT !.ov = TRUE] ELSE op[v]]
  /\ UNCHANGED <<nd, ms, known, flt, fltt, vals, Slack>>
Built(x, n) == x \in RG /\ G({"X01", "R01"}, n \in {"", rg[x].n}) /\ rg' = [rg EXCEPT ![x].built = TRUE] /\ UNCHANGED <<nd, op, ms, known, flt, fltt, vals, Slack>>
RRet(x, ok, t) ==
  /\ x \in RG /\ rg[x].st = "inv"
  /\ LET r == rg[x]
         same == {y \in RG : y # x /\ rg[y].st = "ok" /\ rg[y].rem = "no" /\ rg[y].live /\ rg[y].n = r.n /\ rg[y].inc = r.inc} IN
     /\ ok => /\ G({"R04"}, r.built /\ ~r.must)
              /\ G({"R04"}, ~ \E y \in same : rg[y].id = r.id \/ (r.uniq /\ rg[y].ty = r.ty))
     /\ ~ok => G({"R04"}, ~r.built /\ (r.why \/ FaultSince(r.fc)))
     /\ rg' = [z \in RG |-> IF z = x THEN [rg[x] EXCEPT !.st = IF ok THEN "ok" ELSE "fail"]
                            ELSE IF ok /\ z \in Left(r) THEN [rg[z] EXCEPT !.rem = "yes"] ELSE rg[z]]
  /\ UNCHANGED <<nd, op, ms, known, flt, fltt, vals, Slack>>

\* a record without an actor, as a crash leaves it
Raw(x, n, id, ty, w, ok, t) ==
  /\ rg' = (x :> [n |-> n, id |-> id, ty |-> ty, w |-> w, lim |-> 0, uniq |-> FALSE, st |-> IF ok THEN "ok" ELSE "fail", rem |-> "no", live |-> FALSE,
                  stop |-> FALSE, gone |-> FALSE, built |-> FALSE, t |-> t, fc |-> Fc, inc |-> nd[n].inc, must |-> FALSE, why |-> FALSE]) @@ rg
  /\ UNCHANGED <<nd, op, ms, known, flt, fltt, vals, Slack>>

Touch(S) == [x \in RG |-> IF x \in S /\ rg[x].rem = "no" THEN [rg[x] EXCEPT !.rem = "may", !.must = FALSE]
                          ELSE IF \E y \in S : rg[y].ty = rg[x].ty THEN [rg[x] EXCEPT !.must = FALSE] ELSE rg[x]]
UInv(u, n, id, t) ==
  LET S == {x \in RG : rg[x].id = id /\ Poss(x)} IN
  /\ op' = (u :> [k |-> "un", n |-> n, id |-> id, xs |-> {x \in S : rg[x].st = "ok"}, t |-> t, fc |-> Fc,
                  \* what was left behind, and whether the id is being registered again meanwhile
                  lx |-> {x \in S : ~rg[x].live}, ov |-> \E x \in RG : rg[x].st = "inv" /\ rg[x].id = id /\ rg[x].n = n]) @@ op
  /\ rg' = Touch(S)
  /\ UNCHANGED <<nd, ms, known, flt, fltt, vals, Slack>>
URet(u, t) ==
  /\ u \in DOMAIN op
  /\ LET o == op[u]
         alone == ~ \E v \in DOMAIN op : v # u /\ op[v].k = "un" /\ op[v].id = o.id IN
     /\ rg' = [x \in RG |-> IF x \in o.xs
                            THEN [rg[x] EXCEPT !.rem = IF alone /\ ~FaultSince(o.fc) /\ ~(o.ov /\ x \in o.lx) THEN "yes" ELSE rg[x].rem, !.live = rg[x].live /\ rg[x].n # o.n,
                                              \* its actor has been stopped, unless that took too long
                                              !.gone = rg[x].gone \/ (rg[x].n = o.n /\ rg[x].live /\ t < o.t + DrainMax)]
                            ELSE IF rg[x].id = o.id /\ rg[x].n = o.n /\ rg[x].rem = "yes" THEN [rg[x] EXCEPT !.live = FALSE]
                            ELSE rg[x]]
     /\ op' = [v \in DOMAIN op \ {u} |-> IF op[v].k = "un" /\ op[v].id = o.id THEN [op[v] EXCEPT !.xs = op[v].xs \cup o.xs] ELSE op[v]]
  /\ UNCHANGED <<nd, ms, known, flt, fltt, vals, Slack>>
Stop(x, t) == rg' = [rg EXCEPT ![x].stop = TRUE] /\ UNCHANGED <<nd, op, ms, known, flt, fltt, vals, Slack>>

EInv(u, n, t) ==
  LET S == {x \in RG : rg[x].n = n /\ Poss(x)} IN
  /\ op' = (u :> [k |-> "ex", n |-> n, id |-> "", xs |-> {x \in S : rg[x].st = "ok"}, t |-> t, fc |-> Fc, lx |-> {}, ov |-> FALSE]) @@ op
  /\ rg' = Touch(S)
  /\ nd' = [nd EXCEPT ![n].up = FALSE, ![n].t = t]
  /\ UNCHANGED <<ms, known, flt, fltt, vals, Slack>>
ERet(u, n, t) ==
  /\ u \in DOMAIN op
  /\ LET o == op[u] IN
     /\ rg' = [x \in RG |-> IF x \in o.xs THEN [rg[x] EXCEPT !.rem = IF FaultSince(o.fc) THEN @ ELSE "yes", !.live = FALSE] ELSE rg[x]]
     /\ op' = [v \in DOMAIN op \ {u} |-> op[v]]
     /\ nd' = [nd EXCEPT ![n].inc = IF FaultSince(o.fc) THEN @ ELSE @ + 1, ![n].t = t]
  /\ UNCHANGED <<ms, known, flt, fltt, vals, Slack>>
Kill(n, t) ==
  /\ nd' = [nd EXCEPT ![n].up = FALSE, ![n].t = t]
  /\ rg' = [x \in RG |-> IF rg[x].n = n THEN [rg[x] EXCEPT !.live = FALSE] ELSE rg[x]]
  /\ UNCHANGED <<op, ms, known, flt, fltt, vals, Slack>>
Fault(on, t) == flt' = on /\ fltt' = (IF on THEN fltt + 1 ELSE fltt) /\ UNCHANGED <<nd, rg, op, ms, known, vals, Slack>>

----------------------------------------------------------------------------
(* Messages.  k: call, send (their own context), ncall, nsend (the context  *)
(* of the handler that issues them: a local ncall only queues).             *)
Sym(to) == to \in {"?", "~"}
IsCall(m) == ms[m].k \in {"call", "ncall", "rcall"}
ById(m) == ~Sym(ms[m].to)
Lab(m) == (IF IsCall(m) THEN IF ById(m) THEN {"N01"} ELSE {"N02"} ELSE {"N03"}) \cup (IF ms[m].k = "rcall" THEN {"A08"} ELSE {})
Tgt(r) == IF Sym(r.to) THEN {x \in RG : rg[x].ty = r.ty /\ Poss(x)} ELSE {x \in RG : rg[x].id = r.to /\ Poss(x)}
\* records that can turn out to be stale at the caller's own node
StaleFor(r) == {x \in Tgt(r) : rg[x].st = "ok" /\ ~rg[x].live /\ rg[x].n = r.nd /\ rg[x].ty \in known}
\* ... and those at other nodes, which remove them when the message gets there
StaleAway(r) == {x \in Tgt(r) : rg[x].st = "ok" /\ ~rg[x].live /\ rg[x].n # r.nd /\ rg[x].ty \in known /\ nd[rg[x].n].up}

Inv(m, r0, t) ==
  /\ m \notin DOMAIN ms
  /\ LET S == StaleFor(r0)
         r == [k |-> r0.k, n |-> r0.nd, by |-> r0.by, p |-> r0.p, to |-> r0.to, ty |-> r0.ty, org |-> r0.org, inv |-> t,
               end |-> IF r0.p # "" THEN ms[r0.p].end ELSE r0.dl, canc |-> FALSE,
               hs |-> "", he |-> FALSE, pan |-> FALSE, fc |-> Fc, ret |-> FALSE, ok |-> FALSE,
               dead |-> {x \in RG : rg[x].rem = "yes"},
               tgt |-> Tgt(r0), loc |-> {x \in RG : rg[x].n = r0.nd /\ rg[x].ty = r0.ty /\ Takes(x)},
               stale |-> S, unk |-> \E x \in Tgt(r0) : ~(Takes(x)),
               only |-> Tgt(r0) = S /\ S # {}] IN
     /\ ms' = (m :> r) @@ ms
     /\ rg' = [x \in RG |-> IF x \in S \cup StaleAway(r0) /\ rg[x].rem = "no" /\ (r.to # "~" \/ r.loc = {})
                            THEN [rg[x] EXCEPT !.rem = "may"] ELSE rg[x]]
  /\ UNCHANGED <<nd, op, known, flt, fltt, vals, Slack>>
Cancel(m, t) == ms' = [ms EXCEPT ![m].canc = TRUE] /\ UNCHANGED <<nd, rg, op, known, flt, fltt, vals, Slack>>

Remote(m) == ms[m].hs # "" /\ rg[ms[m].hs].n # ms[m].n
Ended(m, t) == ms[m].canc \/ (ms[m].end # Never /\ t >= ms[m].end)
\* the context of a handler ends with the request that brought the message to its node
RECURSIVE OverFor(_, _)
OverFor(p, t) == p # "" /\ \/ (Remote(p) \/ ms[p].k = "call") /\ t >= ms[p].inv + CallMax
                           \/ Remote(p) /\ IsCall(p) /\ ms[p].ret
                           \/ OverFor(ms[p].p, t)

\* the connection to some node the message may be routed to is or was recently broken
Trouble(m) == \E x \in RG : x \in ms[m].tgt \cup Tgt(ms[m]) /\ rg[x].n # ms[m].n /\ (~nd[rg[x].n].up \/ (nd[rg[x].n].t > 0 /\ nd[rg[x].n].t + Recover >= ms[m].inv))
Hs(m, x, same, t) ==
  /\ x \in RG
  /\ G({"N04", "X01"}, ~rg[x].gone)
  /\ G({"N01", "N02", "N03", "N04"}, m \in DOMAIN ms)
  /\ IF m \in DOMAIN ms
     THEN LET r == ms[m] IN
          /\ G(Lab(m) \cup {"N04"}, r.hs = "")
          /\ G(Lab(m) \cup (IF r.by # "" THEN {"X01"} ELSE {}), same)
          /\ IF ById(m) THEN G(Lab(m) \cup {"N04"}, rg[x].id = r.to) ELSE G(Lab(m) \cup {"N02"}, rg[x].ty = r.ty)
          \* a ~ message goes to an actor of the caller's node if there certainly is one
          /\ r.to = "~" => G({"N02"}, rg[x].n = r.n \/ ~ \E y \in r.loc : Takes(y))
          /\ G(Lab(m) \cup {"N04"}, x \notin r.dead /\ rg[x].id # r.org)
          /\ G(Lab(m) \cup {"N04"}, r.ret => (r.ok \/ (IsCall(m) /\ (Ended(m, t) \/ OverFor(r.p, t) \/ t >= r.inv + CallMax \/ FaultSince(r.fc) \/ Trouble(m) \/ nd[rg[x].n].t >= r.inv))))
          /\ ms' = [ms EXCEPT ![m].hs = x]
     ELSE UNCHANGED ms
  /\ UNCHANGED <<nd, rg, op, known, flt, fltt, vals, Slack>>
He(m, x, pan, t) ==
  /\ ms' = IF m \in DOMAIN ms THEN [ms EXCEPT ![m].he = TRUE, ![m].pan = pan] ELSE ms
  /\ UNCHANGED <<nd, rg, op, known, flt, fltt, vals, Slack>>

\* every actor the message can be routed to certainly takes it, all the time since the call
Sure(m) == /\ ~ms[m].unk
           /\ ms[m].tgt # {}
           /\ \A x \in Tgt(ms[m]) \cup ms[m].tgt : Takes(x) /\ rg[x].id # ms[m].org
Excuse(m, t) == Ended(m, t) \/ OverFor(ms[m].p, t) \/ FaultSince(ms[m].fc) \/ Trouble(m) \/ ~Sure(m)
Kids(m) == {c \in DOMAIN ms : ms[c].p = m}

Ret(m, ok, err, same, t) ==
  /\ m \in DOMAIN ms /\ ~ms[m].ret
  /\ LET r == ms[m]
         gone == r.tgt = {} /\ Tgt(r) = {} IN
     /\ (ok /\ r.k \in {"call", "rcall"}) => G(Lab(m) \cup {"N04"}, r.he /\ (same \/ r.pan))
     /\ (ok /\ r.k = "ncall" /\ Remote(m)) => G(Lab(m) \cup {"N04"}, r.he /\ (same \/ r.pan))
     /\ ok => G(Lab(m) \cup {"N04"}, ~gone /\ r.to # "")
     \* it must not report success if all it can find is a record of its own node without an actor
     /\ ok => G({"R06"}, ~(r.only /\ (\A x \in Tgt(r) : x \in r.stale)))
     /\ ~ok => G(Lab(m), Excuse(m, t) \/ (IsCall(m) /\ t >= r.inv + CallMax))
     \* what an actor has got is not reported as undelivered
     /\ (~ok /\ r.hs # "") => G(Lab(m), Ended(m, t) \/ OverFor(r.p, t) \/ FaultSince(r.fc) \/ Trouble(m) \/ nd[rg[r.hs].n].t >= r.inv \/ (IsCall(m) /\ t >= r.inv + CallMax))
     \* a message that could not be handed over is reported by the result itself
     /\ (~ok /\ r.hs = "" /\ ~Ended(m, t) /\ t < r.inv + CallMax) => G({"N04"}, err)
     /\ ms' = [ms EXCEPT ![m].ret = TRUE, ![m].ok = ok]
     \* a message that found only a stale record of its own node has removed it
     /\ rg' = IF ~ok /\ r.only /\ r.to # "?" /\ Cardinality(r.stale) = 1 /\ ~FaultSince(r.fc) /\ Tgt(r) \subseteq r.stale
                 /\ ~ \E m2 \in DOMAIN ms : m2 # m /\ ~ms[m2].ret /\ ms[m2].stale \cap r.stale # {}
                 /\ ~ \E v \in DOMAIN op : TRUE
              THEN [x \in RG |-> IF x \in r.stale THEN [rg[x] EXCEPT !.rem = "yes"] ELSE rg[x]]
              ELSE rg
  /\ UNCHANGED <<nd, op, known, flt, fltt, vals, Slack>>

----------------------------------------------------------------------------
(* What a handler does with its actor's context.                            *)
Of(x, k) == IF x \in DOMAIN vals /\ k \in DOMAIN vals[x] THEN vals[x][k] ELSE ""
Put(x, k, v) == vals' = (x :> ((k :> v) @@ (IF x \in DOMAIN vals THEN vals[x] ELSE <<>>))) @@ vals
                /\ UNCHANGED <<nd, rg, op, ms, known, flt, fltt, Slack>>
Get(x, k, v) == G({"X01"}, v = Of(x, k)) /\ UNCHANGED vars
Who(x, id, ty, own) == G({"X01"}, x \in RG /\ id = rg[x].id /\ ty = rg[x].ty /\ own) /\ UNCHANGED vars

Busy(x) == \E m \in DOMAIN ms : ms[m].hs = x /\ ~ms[m].he
\* the result of a reentrant call has to wait until its caller is free
Held(r) == r.k = "rcall" /\ (Busy(r.by) \/ ~Takes(r.by))
Quiet(t) ==
  /\ \A m \in DOMAIN ms :
       LET r == ms[m]
           may == {x \in RG : x \in r.tgt \cup Tgt(r)} IN
       \* a send does not wait
       /\ r.k \in {"send", "nsend"} => G({"N03"}, r.ret)
       \* what is accepted, or still under way, has reached its actor, unless that one is busy
       /\ (r.hs = "" /\ ((~r.ret /\ ~Held(r)) \/ (r.ok /\ r.k \notin {"call", "rcall"}))) =>
            G(Lab(m), Excuse(m, t) \/ (\E x \in may : Busy(x)))
       \* a local send that was not refused is not lost
       /\ (r.hs = "" /\ r.ret /\ r.ok /\ ~IsCall(m) /\ r.to # "?") =>
            G({"N03"}, \/ \E x \in may : Busy(x) \/ rg[x].n # r.n
                       \/ \E x \in may : rg[x].st = "inv")
       \* replies come at once
       /\ (r.he /\ ~r.ret /\ Kids(m) = {} /\ ~Held(r)) => G(Lab(m), FALSE)
       /\ (~r.ret /\ ~Held(r)) => G({"N04"} \cup Lab(m), t <= r.inv + 30000 + Slack)
       /\ (~r.ret /\ r.k \in {"call", "rcall"} /\ ~Held(r) /\ Kids(m) = {} /\ ~Trouble(m)) => G({"N04"} \cup Lab(m), t <= r.inv + CallMax + Slack)
  /\ \A x \in RG : rg[x].st = "inv" => G({"R04", "R01"}, FALSE)
  \* removals and shutdowns end, a while after the handlers they wait for have ended
  /\ \A v \in DOMAIN op : t <= op[v].t + 30000 + Slack \/ (\E x \in RG : Busy(x) /\ (rg[x].id = op[v].id \/ op[v].k # "un")) \/ G({"R01", "R05"}, FALSE)
  /\ UNCHANGED vars

----------------------------------------------------------------------------
(* What the nodes say about the registry when nothing is under way.         *)
PendId(i) == \E x \in RG : rg[x].id = i /\ (rg[x].st = "inv" \/ (rg[x].st = "ok" /\ rg[x].rem = "may"))
PendTy(y) == \E x \in RG : rg[x].ty = y /\ (rg[x].st = "inv" \/ (rg[x].st = "ok" /\ rg[x].rem = "may"))
PendNode(n) == \E x \in RG : rg[x].n = n /\ (rg[x].st = "inv" \/ (rg[x].st = "ok" /\ rg[x].rem = "may"))
OfTy(y) == {x \in RG : rg[x].ty = y /\ Cert(x)}
OfNode(n) == {x \in RG : rg[x].n = n /\ Cert(x)}
W(S) == SumOver([x \in S |-> rg[x].w], S)
NodeW(n) == W(OfNode(n))
Listings == {n \in DOMAIN nd : Listed(n)}
Settled == \A n \in DOMAIN nd : ~PendNode(n)
Views == {"R01", "R04", "R05", "R06"}

ByIdOK(e) ==
  LET S == {x \in RG : rg[x].id = e.id /\ Cert(x)} IN
  IF PendId(e.id) THEN TRUE
  \* a node may go on listing what runs on it although another node has removed the record
  ELSE IF S = {} THEN ~e.f \/ \E x \in RG : rg[x].id = e.id /\ rg[x].n = e.v /\ e.n = e.v /\ rg[x].st = "ok" /\ rg[x].live
  ELSE e.f /\ e.same /\ \E x \in S : rg[x].n = e.n /\ e.at = nd[e.n].at
ByTyOK(e) ==
  LET S == OfTy(e.ty)
      L == {i : i \in 1..Len(e.l)} IN
  /\ e.ok
  /\ \A i \in L : e.l[i].ty = e.ty /\ \E x \in RG : Poss(x) /\ rg[x].id = e.l[i].id /\ rg[x].n = e.l[i].n /\ rg[x].ty = e.ty /\ e.l[i].at = nd[rg[x].n].at
  /\ \A i, j \in L : (e.l[i].id = e.l[j].id /\ e.l[i].n = e.l[j].n) => i = j
  /\ \A x \in S : \E i \in L : e.l[i].id = rg[x].id /\ e.l[i].n = rg[x].n
  /\ e.cnt = Len(e.l)
\* what a node says about its own actors: those registered there and not removed, each once
LocOK(e) ==
  LET L == {e.l[i] : i \in DOMAIN e.l} IN
  e.v \notin DOMAIN nd \/ ~nd[e.v].up \/ PendNode(e.v)
  \/ /\ Cardinality(L) = Len(e.l)
     /\ e.f = e.l
     /\ \A i \in L : \E x \in RG : rg[x].id = i /\ rg[x].n = e.v /\ rg[x].st = "ok" /\ rg[x].live
     /\ \A x \in RG : (rg[x].n = e.v /\ rg[x].st = "ok" /\ rg[x].rem = "no" /\ rg[x].live /\ rg[x].inc = nd[e.v].inc) => rg[x].id \in L
WeightOK(e) ==
  PendNode(e.n) \/ (e.n \notin DOMAIN nd)
  \/ /\ e.tot = NodeW(e.n)
     /\ \A y \in DOMAIN e.per : e.per[y] = W({x \in OfNode(e.n) : rg[x].ty = y})
GoneOK(e) == e.n \notin DOMAIN nd \/ MaybeListed(e.n) \/ PendNode(e.n) \/ (~e.in /\ ~e.key)
HereOK(e) == e.n \notin DOMAIN nd \/ ~Listed(e.n) \/ PendNode(e.n) \/ (e.in /\ e.key)
LowOK(e) ==
  ~Settled \/ (IF Listings = {} THEN ~e.f
               ELSE /\ e.f /\ e.n \in Listings /\ e.at = nd[e.n].at
                    /\ \A n \in Listings : NodeW(e.n) <= NodeW(n))
WildOK(e) ==
  ~Settled \/ LET S == OfTy(e.ty) IN
              IF S = {} THEN ~e.f
              ELSE /\ e.f /\ e.aty = e.ty
                   /\ \E x \in S : rg[x].id = e.id /\ rg[x].n = e.n /\ e.at = nd[e.n].at
                   /\ Cardinality(S) <= 10 => \A x \in S : NodeW(e.n) <= NodeW(rg[x].n)

View(e) ==
  /\ \A i \in DOMAIN e.byid : G(Views, ByIdOK(e.byid[i]))
  /\ \A i \in DOMAIN e.byty : G(Views, ByTyOK(e.byty[i]))
  /\ \A i \in DOMAIN e.loc : G({"R01", "R04"}, LocOK(e.loc[i]))
  /\ \A i \in DOMAIN e.ws : G({"R02", "R04", "R05", "R06"}, WeightOK(e.ws[i]))
  /\ \A i \in DOMAIN e.ws : G({"R05"}, GoneOK(e.ws[i]) /\ HereOK(e.ws[i]))
  /\ \A i \in DOMAIN e.low : G({"R03"}, LowOK(e.low[i]))
  /\ \A i \in DOMAIN e.wild : G({"R03"}, WildOK(e.wild[i]))
  /\ G({"R05"}, e.alive = <<>>)
  /\ UNCHANGED vars
=============================================================================
