------------------------------- MODULE PubSub -------------------------------
(***************************************************************************)
(* Topics, channels and subscribers (lib/pubsub, Runtime.Sub, System.Pub).  *)
(*                                                                          *)
(* A channel of a topic is identified by <<topic, name, incarnation>>: a    *)
(* channel closed by its last subscription is gone, and a later one of the  *)
(* same name starts afresh.  For a message, the channels that must get it   *)
(* are those with a completed subscription when its publication starts, the *)
(* ones that may get it are those whose subscription started before the     *)
(* publication returned.                                                    *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANT P
G(ls, c) == IF P = "ALL" \/ P \in ls THEN (c) = TRUE ELSE TRUE

Never == -1
Wind == 100   \* how long a stop may go on reading

VARIABLES
  sub,    \* subscription -> record
  chans,  \* channels that certainly exist
  inc,    \* <<topic, name>> -> incarnation
  pub,    \* message -> record
  got,    \* <<message, channel, subscriber>> handled
  busy,   \* <<subscriber, message>> being handled
  haltt,  \* subscriber -> when its own stop began
  halt,   \* subscriber -> "stopping" | "stopped"
  top,    \* topic -> record
  open,   \* operations in progress that may create a topic
  clos,   \* closes of topics in progress
  cached, \* <<manager, topic>> a manager knows already
  ff,     \* the clock that topics expire by
  bad,    \* redis is failing
  part,   \* some commands of redis are failing
  badev,  \* it has ever failed
  Slack
vars == <<sub, chans, inc, pub, got, busy, halt, haltt, part, top, open, clos, cached, ff, bad, badev, Slack>>

Init0(sl) ==
  /\ sub = <<>> /\ chans = {} /\ inc = <<>> /\ pub = <<>> /\ got = {} /\ busy = {} /\ halt = <<>> /\ haltt = <<>> /\ part = FALSE /\ top = <<>>
  /\ open = <<>> /\ clos = <<>> /\ cached = {} /\ ff = 0 /\ bad = FALSE /\ badev = FALSE /\ Slack = sl

\* ------------------------------------------------------------------ topics
Fresh == [ex |-> "no", ttls |-> {}, born |-> 0, ep |-> 0, pres |-> {}, poss |-> {}, gone |-> FALSE, amb |-> FALSE, leak |-> FALSE, exp |-> FALSE]
Top(tp) == IF tp \in DOMAIN top THEN top[tp] ELSE Fresh
SetTop(tp, r) == (tp :> r) @@ top
Contribs(tp) == UNION {open[o].c : o \in {o \in DOMAIN open : open[o].tp = tp}}
Unsure(tp) == \E k \in DOMAIN clos : clos[k].tp = tp
\* an operation by manager mgr starts that opens tp, asking for ttl
Opens(o, tp, ttl, mgr, always) ==
  open' = (o :> [tp |-> tp, c |-> IF bad \/ (<<mgr, tp>> \in cached /\ ~always) THEN {} ELSE {ttl}, ov |-> Unsure(tp)]) @@ open
Closed(o) == [x \in DOMAIN open \ {o} |-> open[x]]
\* the topic record once operation o has returned and the topic certainly exists
Exists(tp) ==
  LET r == Top(tp) IN
  CASE r.ex = "no"  -> [r EXCEPT !.ex = "yes", !.ttls = Contribs(tp), !.born = ff]
    [] r.ex = "any" -> [r EXCEPT !.ex = "yes", !.ttls = {}]      \* its ttl is not known
    [] OTHER        -> r
\* ... and when that is not certain, because a close overlapped it
Opened(o, tp) == IF open[o].c = {} \/ bad THEN Top(tp)
                 ELSE IF open[o].ov THEN (IF Top(tp).ex = "no" THEN [Exists(tp) EXCEPT !.ex = "any", !.amb = TRUE] ELSE Top(tp))
                 ELSE Exists(tp)
Inc(tp, ch) == IF <<tp, ch>> \in DOMAIN inc THEN inc[<<tp, ch>>] ELSE 0
Key(tp, ch) == <<tp, ch, Inc(tp, ch)>>
ChansOf(tp) == {k \in chans : k[1] = tp}
InFlightPub(tp) == \E m \in DOMAIN pub : pub[m].tp = tp /\ pub[m].st = "inv"
InFlightSub(tp) == \E s \in DOMAIN sub : sub[s].tp = tp /\ sub[s].st \in {"inv", "closing"}

\* what a close in progress may have seen (looked at before every event)
Can(tp) == /\ \A k \in ChansOf(tp) : \E s \in DOMAIN sub : sub[s].tp = tp /\ sub[s].ch = k[2] /\ sub[s].st = "closing"
           /\ Top(tp).pres = {}
Sure(k, tp) == /\ ChansOf(tp) = {} /\ ~InFlightPub(tp) /\ ~InFlightSub(tp) /\ Top(tp).poss = {} /\ ~Top(tp).leak /\ ~bad
               /\ \A o \in DOMAIN open : o # k => open[o].tp # tp \/ open[o].c = {}
Seen == [k \in DOMAIN clos |-> [clos[k] EXCEPT !.can = @ \/ Can(clos[k].tp), !.sure = @ /\ Sure(k, clos[k].tp)]]
Track == clos' = Seen

OInv(o, tp, ttl, mgr) ==
  /\ Opens(o, tp, ttl, mgr, FALSE) /\ cached' = cached \cup {<<mgr, tp>>}
  /\ UNCHANGED <<haltt, part, sub, chans, inc, pub, got, busy, halt, top, ff, bad, badev, Slack>>
ORet(o) ==
  /\ LET tp == open[o].tp IN
     /\ top' = SetTop(tp, Opened(o, tp))
  /\ open' = Closed(o)
  /\ UNCHANGED <<haltt, part, sub, chans, inc, pub, got, busy, halt, cached, ff, bad, badev, Slack>>

\* ------------------------------------------------------------ subscriptions
\* what the topic certainly holds, and nobody else is going to take
Mine(tp, ch) == IF bad \/ Unsure(tp) \/ Key(tp, ch) \in chans \/ (\E s \in DOMAIN sub : sub[s].tp = tp /\ sub[s].st = "inv") THEN {}
                ELSE {m \in Top(tp).pres : pub[m].st = "ok" /\ pub[m].may = {}}
\* beg: a new channel starts with what the topic holds, rather than with what is published from now on
SInv(s, x, tp, ch, ttl, mgr, raw, beg) ==
  /\ s \notin DOMAIN sub
  /\ Opens(s, tp, ttl, mgr, FALSE) /\ cached' = cached \cup {<<mgr, tp>>}
  /\ sub' = (s :> [x |-> x, tp |-> tp, ch |-> ch, st |-> "inv", raw |-> raw, at |-> {}, t |-> Never, old |-> IF beg THEN Mine(tp, ch) ELSE {},
                   need |-> ~bad /\ ~Unsure(tp) /\ (Top(tp).ex = "yes" \/ <<mgr, tp>> \notin cached)])
            \* whoever comes first decides where the channel starts
            @@ [j \in DOMAIN sub |-> IF sub[j].tp = tp /\ sub[j].st = "inv" THEN [sub[j] EXCEPT !.old = {}] ELSE sub[j]]
  /\ pub' = [m \in DOMAIN pub |-> IF pub[m].tp = tp /\ (pub[m].st = "inv" \/ (beg /\ pub[m].ep = Top(tp).ep)) THEN [pub[m] EXCEPT !.may = @ \cup {Key(tp, ch)}] ELSE pub[m]]
  /\ top' = IF beg THEN SetTop(tp, [Top(tp) EXCEPT !.pres = {}]) ELSE top
  /\ UNCHANGED <<haltt, part, chans, inc, got, busy, halt, ff, bad, badev, Slack>>
SRet(s, ok) ==
  /\ s \in DOMAIN sub /\ sub[s].st = "inv"
  /\ LET tp == sub[s].tp IN
     /\ G({"S01", "S02", "S03"}, sub[s].need /\ ~bad => ok)
     /\ sub' = [sub EXCEPT ![s].st = IF ok THEN "ok" ELSE "fail"]
     /\ chans' = IF ok THEN chans \cup {Key(tp, sub[s].ch)} ELSE chans
     /\ top' = SetTop(tp, IF ok THEN Exists(tp) ELSE Opened(s, tp))
  /\ open' = Closed(s)
  /\ pub' = [m \in DOMAIN pub |-> IF ok /\ m \in sub[s].old THEN [pub[m] EXCEPT !.must = @ \cup {Key(sub[s].tp, sub[s].ch)}] ELSE pub[m]]
  /\ UNCHANGED <<haltt, part, inc, got, busy, halt, cached, ff, bad, badev, Slack>>

Live(s) == sub[s].st = "ok" /\ sub[s].x \notin DOMAIN halt
\* the subscriptions a channel has ever had
Ever(k) == {s \in DOMAIN sub : sub[s].tp = k[1] /\ sub[s].ch = k[2] /\ sub[s].st # "fail"}
LiveOn(k) == {s \in Ever(k) : Live(s)}
Sole(k) == Cardinality(Ever(k)) = 1
Left(k) == \E s \in Ever(k) : sub[s].st \in {"closing", "closed"} \/ sub[s].x \in DOMAIN halt
Lab(k) == (IF Sole(k) THEN {"S01"} ELSE {"S02"})
          \cup (IF \E j \in DOMAIN sub : sub[j].tp = k[1] /\ sub[j].ch # k[2] THEN {"S03"} ELSE {})
          \cup (IF Left(k) THEN {"S05"} ELSE {})

\* ------------------------------------------------------------ publications
PInv(m, tp, ev, mgr, t) ==
  /\ m \notin DOMAIN pub
  /\ Opens(m, tp, 0, mgr, ev # "") /\ cached' = cached \cup {<<mgr, tp>>}
  /\ pub' = (m :> [tp |-> tp, ev |-> ev, st |-> "inv", must |-> ChansOf(tp),
                   may |-> ChansOf(tp) \cup {Key(tp, sub[s].ch) : s \in {s \in DOMAIN sub : sub[s].tp = tp /\ sub[s].st = "inv"}},
                   before |-> {q \in DOMAIN pub : pub[q].tp = tp /\ pub[q].st = "ok"}, ep |-> Top(tp).ep, t |-> t, t1 |-> t]) @@ pub
  /\ top' = IF ev = "" THEN top ELSE SetTop(tp, [Top(tp) EXCEPT !.poss = @ \cup {m}])
  /\ UNCHANGED <<haltt, part, sub, chans, inc, got, busy, halt, ff, bad, badev, Slack>>
PRet(m, ok, t) ==
  /\ m \in DOMAIN pub /\ pub[m].st = "inv"
  /\ LET tp == pub[m].tp
         r  == Exists(tp) IN
     /\ G({"S04"}, pub[m].ev = "" => ~ok)
     /\ G({"S04"}, pub[m].ev # "" /\ ~bad => ok)
     /\ pub' = [pub EXCEPT ![m].st = IF ok THEN "ok" ELSE "fail", ![m].t1 = t]
     /\ top' = IF ok THEN SetTop(tp, [r EXCEPT !.pres = IF pub[m].may = {} /\ r.ep = pub[m].ep THEN @ \cup {m} ELSE @])
               ELSE SetTop(tp, Opened(m, tp))
  /\ open' = Closed(m)
  /\ UNCHANGED <<haltt, part, sub, chans, inc, got, busy, halt, cached, ff, bad, badev, Slack>>

\* a subscriber starts to handle a message
Hs(m, x, same) ==
  /\ m \notin DOMAIN pub => G({"S01", "S02", "S03", "S05"}, FALSE) /\ got' = got
  /\ m \in DOMAIN pub =>
     LET tp == pub[m].tp
         mine == {s \in DOMAIN sub : sub[s].x = x /\ sub[s].tp = tp /\ sub[s].st # "fail"}
         ks == {k \in pub[m].may : \E s \in mine : sub[s].ch = k[2]}
         free == {k \in ks : ~ \E g \in got : g[1] = m /\ g[2] = k}
         k == IF free # {} THEN CHOOSE k \in free : \A j \in free : j[3] <= k[3] ELSE IF ks # {} THEN CHOOSE k \in ks : TRUE ELSE <<tp, "", 0>> IN
     /\ G({"S01"}, same)
     /\ G({"S03"}, mine # {})
     /\ G({"S01"}, mine # {} => ks # {})                                    \* published before the subscription
     /\ G({"S04"}, pub[m].ev # "")
     /\ ks # {} => G(Lab(k), free # {})                                     \* once per channel
     /\ G({"S01"}, ks # {} /\ Sole(k) => \A g \in got : g[2] = k => m \notin pub[g[1]].before)
     /\ x \in DOMAIN halt => G({"S05"}, halt[x] # "stopped")
     /\ mine # {} => G({"S05"}, \E s \in mine : sub[s].st = "closed" => m \in sub[s].at)
     \* the consumption ends soon after the stop has begun
     /\ (x \in DOMAIN halt /\ haltt[x] # Never) => G({"S05"}, pub[m].t <= haltt[x] + Wind + Slack)
     /\ mine # {} => G({"S05"}, \E s \in mine : sub[s].t # Never => pub[m].t <= sub[s].t + Wind + Slack)
     /\ got' = got \cup {<<m, k, x>>}
  /\ busy' = busy \cup {<<x, m>>}
  /\ UNCHANGED <<haltt, part, sub, chans, inc, pub, halt, top, open, cached, ff, bad, badev, Slack>>
He(m, x) ==
  /\ busy' = busy \ {<<x, m>>}
  /\ UNCHANGED <<haltt, part, sub, chans, inc, pub, got, halt, top, open, cached, ff, bad, badev, Slack>>

\* ------------------------------------------------------------------- stops
StInv(xs, t) ==
  /\ haltt' = [x \in xs |-> IF Cardinality(xs) = 1 THEN t ELSE Never] @@ haltt
  /\ halt' = [x \in xs |-> "stopping"] @@ halt
  /\ UNCHANGED <<part, sub, chans, inc, pub, got, busy, top, open, cached, ff, bad, badev, Slack>>
StRet(x) ==
  /\ halt' = [halt EXCEPT ![x] = "stopped"]
  /\ UNCHANGED <<haltt, part, sub, chans, inc, pub, got, busy, top, open, cached, ff, bad, badev, Slack>>
\* a subscription without an actor is closed
CInv(s, t) ==
  /\ sub' = [sub EXCEPT ![s].st = "closing", ![s].t = t]
  /\ UNCHANGED <<haltt, part, chans, inc, pub, got, busy, halt, top, open, cached, ff, bad, badev, Slack>>
CRet(s, ok) ==
  /\ LET k == Key(sub[s].tp, sub[s].ch)
         others == {j \in Ever(k) : j # s /\ (sub[j].st \in {"inv", "closing"} \/ (sub[j].st = "ok" /\ (sub[j].x \in DOMAIN halt => halt[sub[j].x] # "stopped")))}
         last == others = {} /\ k \in chans IN
     /\ G({"S05"}, ~bad /\ k \in chans => ok)
     /\ sub' = [sub EXCEPT ![s].st = "closed", ![s].at = DOMAIN pub]
     /\ chans' = IF last THEN chans \ {k} ELSE chans
     /\ inc' = IF last THEN (<<k[1], k[2]>> :> k[3] + 1) @@ inc ELSE inc
     /\ top' = IF last THEN SetTop(k[1], [Top(k[1]) EXCEPT !.leak = TRUE]) ELSE top
  /\ UNCHANGED <<haltt, part, pub, got, busy, halt, open, cached, ff, bad, badev, Slack>>

\* --------------------------------------------------------------- the close
\* the topic and everything in it is gone
Wipe(tp, r) == [r EXCEPT !.ex = "no", !.ep = @ + 1, !.pres = {}, !.poss = {}, !.leak = FALSE, !.ttls = {}]
KInv(k, tp, mgr) ==
  /\ LET c == [ov |-> FALSE, tp |-> tp, c |-> IF bad \/ <<mgr, tp>> \in cached THEN {} ELSE {0}] IN
     open' = (k :> [c EXCEPT !.ov = Unsure(tp)]) @@ [o \in DOMAIN open |-> IF open[o].tp = tp THEN [open[o] EXCEPT !.ov = TRUE] ELSE open[o]]
  /\ cached' = cached \cup {<<mgr, tp>>}
  /\ sub' = [s \in DOMAIN sub |-> IF sub[s].tp = tp /\ sub[s].st = "inv" THEN [sub[s] EXCEPT !.need = FALSE] ELSE sub[s]]
  /\ clos' = (k :> [tp |-> tp, can |-> FALSE, sure |-> TRUE]) @@ Seen
  /\ UNCHANGED <<haltt, part, chans, inc, pub, got, busy, halt, top, ff, bad, badev, Slack>>
KRet(k, ok) ==
  /\ LET tp == clos[k].tp
         r0 == Opened(k, tp) IN
     /\ G({"S04"}, ~bad => ok)
     /\ top' = SetTop(tp, IF bad THEN r0
                          ELSE IF Seen[k].sure THEN [Wipe(tp, r0) EXCEPT !.gone = TRUE]
                          ELSE IF Seen[k].can THEN [r0 EXCEPT !.ex = "any", !.gone = TRUE, !.amb = TRUE]
                          ELSE r0)
  /\ clos' = [j \in DOMAIN clos \ {k} |-> Seen[j]]
  /\ open' = Closed(k)
  /\ UNCHANGED <<haltt, part, sub, chans, inc, pub, got, busy, halt, cached, ff, bad, badev, Slack>>

\* ------------------------------------------------------------ observations
\* everything that can be read has been read and handed over
Handled(m, k) == \E g \in got : g[1] = m /\ g[2] = k
Stuck(k) == \E s \in Ever(k) : \E b \in busy : b[1] = sub[s].x
Calm(t) ==
  /\ \A s \in DOMAIN sub : sub[s].st = "closing" => G({"S05"}, bad \/ part \/ t <= sub[s].t + Wind + Slack)
  \* nothing waits for good: publications, subscriptions, creations and closes of topics return
  /\ \A m \in DOMAIN pub : pub[m].st = "inv" => G({"S01", "S02", "S03", "S04"}, bad \/ part \/ t <= pub[m].t + 150)
  /\ \A s \in DOMAIN sub : sub[s].st = "inv" => G({"S01", "S02", "S03"}, bad \/ part)
  /\ DOMAIN open # {} => G({"S04"}, bad \/ part \/ \A o \in DOMAIN open : o \in DOMAIN pub \cup DOMAIN sub)
  /\ DOMAIN clos # {} => G({"S04"}, bad \/ part)
  /\ \A m \in DOMAIN pub : (pub[m].st = "ok" /\ pub[m].t1 + 150 <= t) =>
       \A k \in pub[m].must \cap chans :
         IF Handled(m, k) \/ LiveOn(k) = {} \/ Stuck(k) \/ bad \/ part THEN TRUE ELSE G(Lab(k), FALSE)
  /\ UNCHANGED vars
Adv(ms) ==
  /\ ff' = ff + ms
  /\ LET dead == {tp \in DOMAIN top : top[tp].ex # "no" /\ top[tp].ttls # {} /\ \A o \in top[tp].ttls : o > 0 /\ top[tp].born + o <= ff + ms} IN
     /\ top' = [tp \in DOMAIN top |-> IF tp \in dead THEN [Wipe(tp, top[tp]) EXCEPT !.exp = TRUE] ELSE top[tp]]
     /\ chans' = {k \in chans : k[1] \notin dead}
     /\ inc' = [c \in {<<k[1], k[2]>> : k \in {j \in chans : j[1] \in dead}} |-> Inc(c[1], c[2]) + 1] @@ inc
  /\ UNCHANGED <<haltt, part, sub, pub, got, busy, halt, open, cached, bad, badev, Slack>>
\* some commands fail
PFault(on) == badev' = TRUE /\ part' = on /\ UNCHANGED <<haltt, sub, chans, inc, pub, got, busy, halt, top, open, cached, ff, bad, Slack>>
Fault(on) ==
  /\ bad' = on /\ badev' = (badev \/ on)
  /\ UNCHANGED <<haltt, part, sub, chans, inc, pub, got, busy, halt, top, open, cached, ff, Slack>>

\* what one topic looks like when nothing is going on
LookOk(o) ==
  LET tp == o.tp
      r == Top(tp)
      ms == {m \in DOMAIN pub : pub[m].tp = tp /\ pub[m].st = "ok" /\ pub[m].ep = r.ep}
      Ks(m) == pub[m].must \cap chans
      read(m) == (\E g \in got : g[1] = m) /\ \A k \in Ks(m) : Handled(m, k)
      calm(m) == \A k \in pub[m].may : ~Stuck(k) IN
  /\ G({"S04"}, r.ex = "yes" => o.ex)
  /\ G({"S04"}, r.ex = "no" => ~o.ex)
  /\ r.ex = "any" => G({"S04"}, ~o.ex => ChansOf(tp) = {} /\ r.pres = {})
  /\ G({"S04"}, ~r.exp /\ ~r.amb /\ ~badev => (~o.ex => ~o.mem) /\ (o.ex /\ ~r.gone => o.mem))
  /\ r.ex = "yes" /\ r.ttls # {} => G({"S04"}, \E d \in r.ttls : o.ttl = IF d = 0 THEN -1 ELSE r.born + d - ff)
  /\ r.ex = "yes" => G({"S04", "S05"}, {k[2] : k \in ChansOf(tp)} \subseteq o.gs)
  /\ r.ex = "yes" /\ ~badev => G({"S04", "S05"}, o.gs \subseteq {k[2] : k \in ChansOf(tp)})
  /\ G({"S04"}, \A m \in o.held : m \in DOMAIN pub /\ pub[m].tp = tp /\ pub[m].ev # "")
  \* nothing that somebody has still to read is missing, nothing that all have read remains
  /\ r.ex = "yes" => \A m \in ms : calm(m) /\ ~read(m) /\ (Ks(m) # {} \/ m \in r.pres) => G({"S03", "S04"}, m \in o.held)
  /\ r.ex = "yes" /\ ~r.leak /\ ~badev => \A m \in ms : calm(m) /\ read(m) => G({"S04"}, m \notin o.held)
Look(os) ==
  /\ \A o \in os : LookOk(o)
  /\ top' = [tp \in DOMAIN top |->
       LET o == CHOOSE o \in os : o.tp = tp
           r == top[tp] IN
       IF ~o.ex THEN (IF r.ex = "any" THEN Wipe(tp, r) ELSE r)
       ELSE [r EXCEPT !.ex = "yes", !.ttls = IF r.ex = "yes" /\ @ # {} THEN @ ELSE {IF o.ttl < 0 THEN 0 ELSE o.ttl},
             !.born = IF r.ex = "yes" /\ r.ttls # {} THEN @ ELSE ff, !.poss = o.held, !.leak = @ /\ ChansOf(tp) # {}, !.pres = IF ChansOf(tp) = {} THEN o.held ELSE @ \cap o.held]]
  /\ UNCHANGED <<haltt, part, sub, chans, inc, pub, got, busy, halt, open, cached, ff, bad, badev, Slack>>
Quiet == UNCHANGED vars
=============================================================================
