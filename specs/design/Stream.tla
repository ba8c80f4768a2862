------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* How a topic is consumed, redis command by redis command                 *)
(* (lib/pubsub/ps_channel.go): every channel is a consumer group of one    *)
(* stream, its subscribers are the group's consumers; a subscriber reads   *)
(* a batch, hands every message to its actor, acknowledges it, and deletes *)
(* it from the stream once the last-delivered id of every group has passed *)
(* it.  Subscribers come and go; a topic is closed only when it holds      *)
(* nothing and has no group.  It justifies S01-S05 of PubSub: who gets     *)
(* what does not depend on the relative speed of the channels.             *)
(*                                                                         *)
(* Variants (deliberate defects): "delete" the entry is deleted once it is *)
(* acknowledged; "own" only the own group is looked at; "late" a consumer  *)
(* that stops drops what it has read; "twostep" a topic's emptiness is     *)
(* checked in one step and acted on in another.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Groups, Subs, NMsg, Variant
GroupOf == CHOOSE f \in [Subs -> Groups] : \A g \in Groups : \E s \in Subs : f[s] = g

VARIABLES ex, stream, last, born, pos, npub, spc, batch, seen, handled, stopt, kpc
vars == <<ex, stream, last, born, pos, npub, spc, batch, seen, handled, stopt, kpc>>
NoGroup == NMsg + 1
Init ==
  /\ ex = TRUE /\ stream = {} /\ npub = 0
  /\ last = [g \in Groups |-> NoGroup]       \* NoGroup: the group does not exist
  /\ born = [g \in Groups |-> NoGroup]
  /\ pos = [g \in Groups |-> {}]             \* delivered to some consumer of the group
  /\ spc = [s \in Subs |-> "out"] /\ batch = [s \in Subs |-> <<>>] /\ seen = [s \in Subs |-> FALSE]
  /\ handled = [s \in Subs |-> <<>>] /\ stopt = [s \in Subs |-> NoGroup] /\ kpc = "idle"

Has(g) == last[g] # NoGroup
Pub == /\ npub < NMsg /\ npub' = npub + 1
       /\ ex' = TRUE /\ stream' = stream \cup {npub + 1}
       /\ UNCHANGED <<last, born, pos, spc, batch, seen, handled, stopt, kpc>>
Sub(s) == /\ spc[s] = "out" /\ ex
          /\ LET g == GroupOf[s] IN
             /\ last' = IF Has(g) THEN last ELSE [last EXCEPT ![g] = npub]
             /\ born' = IF Has(g) THEN born ELSE [born EXCEPT ![g] = npub]
          /\ spc' = [spc EXCEPT ![s] = "loop"]
          /\ UNCHANGED <<ex, stream, pos, npub, batch, seen, handled, stopt, kpc>>
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
\* XREADGROUP with COUNT 2
Read(s) == /\ spc[s] = "loop"
           /\ LET g == GroupOf[s]
                  new == {m \in stream : m > last[g]}
                  a == MinS(new)
                  b == new \ {a}
                  l == IF b = {} THEN <<a>> ELSE <<a, MinS(b)>>
              IN /\ new # {}
                 /\ batch' = [batch EXCEPT ![s] = l]
                 /\ last' = [last EXCEPT ![g] = l[Len(l)]]
                 /\ pos' = [pos EXCEPT ![g] = @ \cup {l[i] : i \in 1..Len(l)}]
           /\ spc' = [spc EXCEPT ![s] = "push"]
           /\ UNCHANGED <<ex, stream, born, npub, seen, handled, stopt, kpc>>
Push(s) == /\ spc[s] = "push"
           /\ handled' = [handled EXCEPT ![s] = Append(@, batch[s][1])]
           /\ spc' = [spc EXCEPT ![s] = "info"]
           /\ UNCHANGED <<ex, stream, last, born, pos, npub, batch, seen, stopt, kpc>>
\* XINFO GROUPS
Info(s) == /\ spc[s] = "info"
           /\ seen' = [seen EXCEPT ![s] = CASE Variant = "delete" -> TRUE
                                            [] Variant = "own" -> last[GroupOf[s]] >= batch[s][1]
                                            [] OTHER -> \A g \in Groups : Has(g) => last[g] >= batch[s][1]]
           /\ spc' = [spc EXCEPT ![s] = "ack"]
           /\ UNCHANGED <<ex, stream, last, born, pos, npub, batch, handled, stopt, kpc>>
\* XACK and XDEL
Ack(s) == /\ spc[s] = "ack"
          /\ stream' = IF seen[s] THEN stream \ {batch[s][1]} ELSE stream
          /\ batch' = [batch EXCEPT ![s] = Tail(@)]
          /\ spc' = [spc EXCEPT ![s] = IF Len(batch[s]) = 1 THEN (IF stopt[s] # NoGroup THEN "stopped" ELSE "loop") ELSE "push"]
          /\ UNCHANGED <<ex, last, born, pos, npub, seen, handled, stopt, kpc>>
Stop(s) == /\ stopt[s] = NoGroup /\ spc[s] # "out" /\ spc[s] # "gone"
           /\ stopt' = [stopt EXCEPT ![s] = npub]
           /\ IF spc[s] = "loop" \/ Variant = "late"
                THEN spc' = [spc EXCEPT ![s] = "stopped"] /\ batch' = [batch EXCEPT ![s] = <<>>]
                ELSE UNCHANGED <<spc, batch>>
           /\ UNCHANGED <<ex, stream, last, born, pos, npub, seen, handled, kpc>>
\* a topic nobody uses is closed
Empty == stream = {} /\ \A g \in Groups : ~Has(g)
KCheck == /\ kpc = "idle" /\ Empty
          /\ IF Variant = "twostep" THEN kpc' = "del" /\ UNCHANGED ex ELSE ex' = FALSE /\ kpc' = "done"
          /\ UNCHANGED <<stream, last, born, pos, npub, spc, batch, seen, handled, stopt>>
KDel == /\ kpc = "del" /\ kpc' = "done" /\ ex' = FALSE /\ stream' = {}
        /\ last' = [g \in Groups |-> NoGroup]
        /\ UNCHANGED <<born, pos, npub, spc, batch, seen, handled, stopt>>
Next == Pub \/ KCheck \/ KDel \/ \E s \in Subs : Sub(s) \/ Read(s) \/ Push(s) \/ Info(s) \/ Ack(s) \/ Stop(s)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
Rng(q) == {q[i] : i \in 1..Len(q)}
SubsOf(g) == {s \in Subs : GroupOf[s] = g}
AllHandled(g) == UNION {Rng(handled[s]) : s \in SubsOf(g)}
\* S01, S02: nothing twice, within a channel only one subscriber, in order per subscriber
Once == \A s \in Subs : \A i, j \in 1..Len(handled[s]) : i < j => handled[s][i] < handled[s][j]
Split == \A s, z \in Subs : s # z /\ GroupOf[s] = GroupOf[z] => Rng(handled[s]) \cap Rng(handled[z]) = {}
\* nothing from before the channel, nothing from after the stop
Fresh == \A g \in Groups : \A m \in AllHandled(g) : m > born[g]
Quiet == \A s \in Subs : stopt[s] # NoGroup => \A m \in Rng(handled[s]) : m <= stopt[s]
\* S01, S03: what was published since the channel exists has been handled, is being handled, or is still there to be read
InHand(g) == UNION {Rng(batch[s]) : s \in SubsOf(g)}
Kept == \A g \in Groups : born[g] # NoGroup => \A m \in (born[g] + 1)..npub : m \in AllHandled(g) \/ m \in InHand(g) \/ (m \in stream /\ Has(g) /\ m > last[g])
\* S04: what nobody has read yet is not lost by a close
Safe == \A m \in 1..npub : m \in stream \/ \E g \in Groups : m \in pos[g]
Inv == Once /\ Split /\ Fresh /\ Quiet /\ Kept /\ Safe
=============================================================================
