------------------------------ MODULE Builder ------------------------------
(* Actor builders (core/actor/actor_build_impl.go): each has options, an id  *)
(* and a type of its own, starting from the factory's template.             *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANT P
G(ls, c) == IF P = "ALL" \/ P \in ls THEN (c) = TRUE ELSE TRUE
VARIABLES tmpl, bs
vars == <<tmpl, bs>>
Init == tmpl = <<>> /\ bs = <<>>
Tmpl(ty, o) == tmpl' = (ty :> o) @@ tmpl /\ UNCHANGED bs
New(b, ty) == bs' = (b :> [opts |-> tmpl[ty], id |-> "", ty |-> ty]) @@ bs /\ UNCHANGED tmpl
Opt(b, k, v) == bs' = [bs EXCEPT ![b].opts = (k :> v) @@ @] /\ UNCHANGED tmpl
Id(b, v) == bs' = [bs EXCEPT ![b].id = v] /\ UNCHANGED tmpl
Ty(b, v) == bs' = [bs EXCEPT ![b].ty = v] /\ UNCHANGED tmpl
Same(o, q) == DOMAIN o = DOMAIN q /\ \A k \in DOMAIN o : o[k] = q[k]
Get(b, k, r) == G({"B01"}, r = IF k \in DOMAIN bs[b].opts THEN bs[b].opts[k] ELSE "") /\ UNCHANGED vars
Read(b, id, ty, o) == G({"B01"}, id = bs[b].id /\ ty = bs[b].ty /\ Same(o, bs[b].opts)) /\ UNCHANGED vars
\* the constructor runs for the actor with this id: it sees that builder's settings
Built(id, ty, o) == G({"B01"}, \E b \in DOMAIN bs : bs[b].id = id /\ bs[b].ty = ty /\ Same(o, bs[b].opts)) /\ UNCHANGED vars
TRead(ty, o, id, name) == G({"B01"}, Same(o, tmpl[ty]) /\ id = "" /\ name = ty) /\ UNCHANGED vars
=============================================================================
