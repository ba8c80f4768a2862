------------------------------ MODULE FutureMC ------------------------------
(* Future closed by a bounded environment: every way in which continuations are attached to a future and to the
   futures of its continuations, and in which it is completed. *)
EXTENDS Future
CONSTANTS Cbs, Comps, Vals
All == "ALL"
MInit == val = ("f" :> "") /\ cbs = <<>> /\ comps = <<>> /\ isc = <<>>
MNext == \/ \E c \in Cbs, f \in Futs : ThenInv(c, f)
         \/ \E c \in DOMAIN cbs : ThenRet(c)
         \/ \E x \in Comps, v \in Vals, f \in Futs : CompInv(x, f, v)
         \/ \E x \in DOMAIN comps : comps[x].st = "lin" /\ CompRet(x)
         \/ \E c \in DOMAIN cbs : cbs[c].st = "wait" /\ Cb(c, val[cbs[c].f])
         \/ \E c \in DOMAIN cbs : cbs[c].st = "run" /\ CbEnd(c)
         \/ Hidden
MSpec == MInit /\ [][MNext]_vars /\ WF_vars(MNext)
\* a value, once set, stays; a continuation only ever sees its future's value; the next future gets the same value
\* unless somebody completed it directly before
Inv == \A c \in DOMAIN cbs :
         /\ cbs[c].st # "wait" => val[cbs[c].f] # ""
         /\ cbs[c].prop => val[c] # ""
         /\ (cbs[c].prop /\ \A x \in DOMAIN comps : comps[x].f # c) => val[c] = val[cbs[c].f]
\* when nothing can happen any more everything that was promised has happened
Rest == ~ENABLED(MNext) => ENABLED(Quiet)
\* every continuation of a completed future runs
Runs == \A c \in Cbs : (c \in DOMAIN cbs /\ val[cbs[c].f] # "") ~> (c \in DOMAIN cbs /\ cbs[c].st = "done" /\ val[c] # "")
\* goals (each must be reachable)
NoChain == ~ \E c, d \in DOMAIN cbs : cbs[d].f = c /\ cbs[d].st = "done"
NoLoser == ~ \E x, y \in DOMAIN comps : comps[x].f = comps[y].f /\ comps[x].v # comps[y].v /\ comps[x].st = "done" /\ comps[y].st = "done"
=============================================================================
