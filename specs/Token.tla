------------------------------- MODULE Token -------------------------------
(***************************************************************************)
(* Login tokens (lib/token), symbolically: a token is a term               *)
(*   header(alg) . payload(pay) . signature(key, salg, spay)                *)
(* Only Create can sign with the system's key "K"; everybody can take       *)
(* tokens apart, put their parts together differently, damage them and sign *)
(* with keys of their own.  Parsing accepts a term exactly if it is one     *)
(* that Create could have made, and then yields its payload: now, later     *)
(* and however often, whatever else was parsed before.                      *)
(***************************************************************************)
EXTENDS Integers, TLC
CONSTANT P
G(ls, c) == IF P = "ALL" \/ P \in ls THEN (c) = TRUE ELSE TRUE
VARIABLES toks     \* name -> term
vars == <<toks>>
Init == toks = <<>>

Term(alg, pay, key, salg, spay, whole) ==
  [alg |-> alg, pay |-> pay, key |-> key, salg |-> salg, spay |-> spay, whole |-> whole]
Signed(alg, pay, key) == Term(alg, pay, key, alg, pay, TRUE)
Genuine(k) == k.whole /\ k.key = "K" /\ k.alg = "HS256" /\ k.salg = k.alg /\ k.spay = k.pay /\ k.pay # ""

Create(x, id, ok) ==
  /\ G({"C01"}, ok = (id # ""))
  /\ toks' = IF ok THEN (x :> Signed("HS256", id, "K")) @@ toks ELSE toks

(* What anybody can do.  "?" is a payload that no id has. *)
Made(how, b, c, id) ==
  CASE how = "pay"   -> [b EXCEPT !.pay = id]                                  \* another payload under b's signature
    [] how = "bits"  -> [b EXCEPT !.pay = "?"]                                 \* damaged payload
    [] how = "sig"   -> [b EXCEPT !.key = "?"]                                 \* damaged signature
    [] how = "swap"  -> [b EXCEPT !.key = c.key, !.salg = c.salg, !.spay = c.spay]  \* c's signature on b
    [] how = "alg"   -> [b EXCEPT !.alg = "other"]                             \* b says it is signed differently
    [] how = "cut"   -> [b EXCEPT !.whole = FALSE]                             \* parts are missing or added
    [] how = "none"  -> Term("none", id, "", "none", id, TRUE)                 \* unsigned
    [] how = "key"   -> Signed("HS256", id, "mine")                            \* signed by somebody else
    [] how = "junk"  -> Term("?", "?", "?", "?", "?", FALSE)
    [] how = "copy"  -> b
Forge(x, how, b, c, id) ==
  /\ b \in DOMAIN toks /\ c \in DOMAIN toks
  /\ toks' = (x :> Made(how, toks[b], toks[c], id)) @@ toks

Parse(x, ok, id) ==
  /\ x \in DOMAIN toks
  /\ G({"C01"}, ok = Genuine(toks[x]))
  /\ ok => G({"C01"}, id = toks[x].pay)
  /\ UNCHANGED toks
=============================================================================
