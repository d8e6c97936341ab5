------------------------------- MODULE Calls --------------------------------
(* Functions given by users: which of them can be called with what.          *)
EXTENDS Common

(* ---- Which functions fit: parameters are [n, k, d]: name, kind            *)
(* ("pk" ordinary, "ko" keyword only, "po" positional only, "va" *args,      *)
(* "vk" **kwargs), and whether there is a default.                           *)
HasKind(ps, k) == \E x \in DOMAIN ps : ps[x].k = k
WantsRng(ps) == \E x \in DOMAIN ps : ps[x].n = "rng"
Named(ps, n) == {x \in DOMAIN ps : ps[x].n = n /\ ps[x].k \in {"pk", "ko"}}
FirstPos(ps) == IF ps # <<>> /\ ps[1].k \in {"po", "pk"} THEN 1 ELSE 0
FitsOne(ps) ==
  /\ IF FirstPos(ps) = 1 THEN ps[1].n # "rng" ELSE HasKind(ps, "va")
  /\ \A x \in DOMAIN ps :
       x # FirstPos(ps) /\ ~ps[x].d /\ ps[x].k \in {"po", "pk", "ko"}
         => ps[x].n = "rng" /\ ps[x].k # "po"
FitsNamed(ps, names) ==
  /\ \A n \in Elems(names) : Named(ps, n) # {} \/ HasKind(ps, "vk")
  /\ \A x \in DOMAIN ps :
       ~ps[x].d /\ ps[x].k \in {"po", "pk", "ko"}
         => ps[x].k # "po" /\ ps[x].n \in Elems(names) \cup {"rng"}
=============================================================================
