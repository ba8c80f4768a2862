------------------------------- MODULE Fields -------------------------------
(***************************************************************************)
(* The content of a message under construction (router/msg): custom fields, *)
(* custom object, header and body of its two sides.                         *)
(* Values are canonical JSON texts; each comes with the set of types in     *)
(* which it is exactly representable.                                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANT P
G(ls, c) == IF P = "ALL" \/ P \in ls THEN (c) = TRUE ELSE TRUE

VARIABLES
  cu,    \* side -> custom content: [kind: "none"|"map"|"obj"|"bad", m: key -> value, c: object]
  body,  \* side -> body
  err    \* a write has failed
vars == <<cu, body, err>>
None == [kind |-> "none", m |-> <<>>, c |-> ""]
Sides == {"req", "res"}
Init == cu = [s \in Sides |-> None] /\ body = [s \in Sides |-> ""] /\ err = FALSE

\* as: sequence of [k, c, ok, fits]; the last write of a key wins
Put(m, as) ==
  LET ks == {as[i].k : i \in 1..Len(as)}
      last(k) == CHOOSE i \in 1..Len(as) : as[i].k = k /\ \A j \in (i + 1)..Len(as) : as[j].k # k IN
  [k \in ks |-> as[last(k)]] @@ m
AllOk(m) == \A k \in DOMAIN m : m[k].ok

Errs(e) == /\ G({"M01"}, e = err')
Fields(s, as, e) ==
  LET nm == Put(cu[s].m, as)
      can == cu[s].kind \in {"none", "map"} /\ AllOk(nm) IN
  /\ cu' = IF can THEN [cu EXCEPT ![s] = [kind |-> "map", m |-> nm, c |-> ""]] ELSE cu
  /\ err' = (err \/ ~can)
  /\ Errs(e) /\ UNCHANGED body
Map(s, as, e) ==
  LET nm == Put(<<>>, as) IN
  /\ cu' = IF AllOk(nm) THEN [cu EXCEPT ![s] = [kind |-> "map", m |-> nm, c |-> ""]] ELSE cu
  /\ err' = (err \/ ~AllOk(nm))
  /\ Errs(e) /\ UNCHANGED body
\* a header brings its own custom fields
Header(s, as, hok, e) ==
  /\ G({"M01"}, hok)
  /\ cu' = [cu EXCEPT ![s] = IF Len(as) = 0 THEN None ELSE [kind |-> "map", m |-> Put(<<>>, as), c |-> ""]]
  /\ UNCHANGED <<body, err>> /\ Errs(e)
Body(s, v, e) == body' = [body EXCEPT ![s] = v] /\ UNCHANGED <<cu, err>> /\ Errs(e)
RBody(s, v) == G({"M01"}, v = body[s]) /\ UNCHANGED vars
Raw(s) == cu' = [cu EXCEPT ![s] = [kind |-> "bad", m |-> <<>>, c |-> ""]] /\ UNCHANGED <<body, err>>
Obj(s, c, ok, e) ==
  /\ cu' = IF ok THEN [cu EXCEPT ![s] = [kind |-> "obj", m |-> <<>>, c |-> c]] ELSE cu
  /\ err' = (err \/ ~ok)
  /\ Errs(e) /\ UNCHANGED body
RObj(s, ok, c) ==
  /\ cu[s].kind = "obj" => G({"M01"}, ok /\ c = cu[s].c)
  /\ cu[s].kind = "none" => G({"M01"}, ~ok)
  /\ UNCHANGED vars

Zero(ty) == IF ty = "string" THEN "\"\"" ELSE IF ty = "bool" THEN "false" ELSE IF ty \in {"list", "map"} THEN "null" ELSE "0"
Get(s, k, ty, c) ==
  /\ LET m == cu[s].m IN
     IF cu[s].kind = "map" /\ k \in DOMAIN m
     THEN ty \in m[k].fits => G({"M01"}, c = m[k].c)
     ELSE G({"M01"}, c = Zero(ty))
  /\ UNCHANGED vars
GMap(s, ok, m) ==
  /\ cu[s].kind = "map" => G({"M01"}, ok /\ DOMAIN m = DOMAIN cu[s].m /\ \A k \in DOMAIN m : m[k] = cu[s].m[k].c)
  /\ cu[s].kind # "map" => G({"M01"}, ~ok)
  /\ UNCHANGED vars
Same(b) == G({"M01"}, b)
=============================================================================
