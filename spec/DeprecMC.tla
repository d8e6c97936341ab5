------------------------------ MODULE DeprecMC ------------------------------
(* The graph of accesses to names, up to twice for each.                     *)
EXTENDS MCBase, Deprec
CONSTANTS Mods, MaxSeen

DeCfgs == {[k |-> "any"]}
Ev(op) == [op |-> op, mod |-> "", name |-> "", way |-> "", n |-> 0, a |-> <<>>, b |-> <<>>,
           good |-> TRUE, mangled |-> FALSE, out |-> <<>>, err |-> "", warned |-> 0, other |-> 0, obj |-> "",
           seeded |-> TRUE]
NamesOf(m) == DOMAIN Deprecated(m) \cup Others(m) \cup Unknown
Accesses ==
  {e \in {[Ev("access") EXCEPT !.mod = m, !.name = n, !.way = w, !.err = x, !.warned = k,
              !.obj = IF n \in DOMAIN Deprecated(m) /\ w # "has" THEN Deprecated(m)[n] ELSE ""]
          : m \in Mods, n \in UNION {NamesOf(m) : m \in Mods}, w \in {"get", "has", "from"},
            x \in {"", "AttributeError", "ImportError"}, k \in {0, 1}}
   : e.name \in NamesOf(e.mod)}
DeEvents(s) ==
  {e \in Accesses : Key(e) \notin DOMAIN s.seen \/ s.seen[Key(e)] < 2}
  \cup {[Ev("dir") EXCEPT !.mod = m, !.out = <<>>] : m \in {}}
DeHStart(c) == [n |-> 0]
DeHNext(h, s, e) == h
Small == Cardinality({k \in DOMAIN st.seen : st.seen[k] > 0}) <= MaxSeen
(* C22: whether a name warns does not depend on what was accessed before.    *)
EveryTime == [][ev'.op = "access" =>
                  ((ev'.warned >= 1) <=> (ev'.name \in DOMAIN Deprecated(ev'.mod)))]_mvars
NeverBoth == \A m \in Modules : DOMAIN Deprecated(m) \cap Others(m) = {}
=============================================================================
