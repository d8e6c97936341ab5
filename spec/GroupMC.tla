------------------------------- MODULE GroupMC ------------------------------
(* Exhaustive exploration of Group for a few objects.                        *)
EXTENDS MCBase, Group
CONSTANTS ObjSets, MaxLen, MaxGroups, Vals, Keys, Likes, MapNewMax, SliceArgs

GrCfgs == {[objs |-> o] : o \in ObjSets}
Ev(op) == [op |-> op, g |-> 0, like |-> "", keys |-> <<>>, mem |-> <<>>, key |-> "", o |-> 0,
           i |-> 0, a |-> <<>>, b |-> <<>>, c |-> <<>>, flag |-> TRUE, name |-> "", val |-> "",
           out |-> <<>>, err |-> "", calls |-> <<>>, obs |-> [on |-> FALSE]]
Who(s) == 0..Len(s.objs)
Some(s) == Seqs(Who(s), 1)
News(s) == {[Ev("new") EXCEPT !.like = "list", !.mem = m] : m \in Seqs(Who(s), 2)}
MNews(s) == UNION {{[Ev("new") EXCEPT !.like = "map", !.keys = k, !.mem = m]
                    : m \in [1..Len(k) -> Who(s)]}
                   : k \in {q \in Seqs(Keys, MapNewMax) : Distinct(q)}}
Acts(s, g) ==
  {[Ev("setattr") EXCEPT !.g = g, !.name = n, !.val = v] : n \in {"color"}, v \in Vals}
  \cup {[Ev("do") EXCEPT !.g = g, !.name = n, !.val = v] : n \in {"run", "stop"}, v \in {"", "int:1"}}
Opt == {<<>>} \cup {<<x>> : x \in SliceArgs}
OptK == {<<>>, <<-1>>, <<2>>, <<0>>}
ListOps(s, g) ==
  LET n == Len(s.groups[g].mem) IN
  {[Ev(op) EXCEPT !.g = g, !.o = o] : op \in {"append", "remove", "index", "count", "contains"}, o \in Who(s)}
  \cup {[Ev(op) EXCEPT !.g = g, !.i = i, !.o = o] : op \in {"insert", "set"}, i \in (-n - 1)..(n + 1), o \in {0, 1}}
  \cup {[Ev(op) EXCEPT !.g = g, !.i = i] : op \in {"del", "pop", "get"}, i \in (-n - 1)..n}
  \cup {[Ev(op) EXCEPT !.g = g, !.flag = f] : op \in {"clear", "reverse", "rev", "sort"}, f \in BOOLEAN}
  \cup {[Ev(op) EXCEPT !.g = g, !.mem = m] : op \in {"extend", "iadd", "eq"}, m \in Some(s)}
  \cup {[Ev("imul") EXCEPT !.g = g, !.i = i] : i \in {0, 1, 2}}
  \cup {[Ev("delslice") EXCEPT !.g = g, !.a = a, !.b = b, !.c = c] : a \in Opt, b \in Opt, c \in OptK}
  \cup {[Ev("setslice") EXCEPT !.g = g, !.a = a, !.b = b, !.c = c, !.mem = m]
        : a \in Opt, b \in Opt, c \in OptK, m \in {<<>>, <<1>>}}
  \cup {[Ev("eqgroup") EXCEPT !.g = g, !.i = i] : i \in {x \in DOMAIN s.groups : s.groups[x].like = "list"}}
ListMore(s, g) ==
  {[Ev("slice") EXCEPT !.g = g, !.a = a, !.b = b, !.c = c] : a \in Opt, b \in Opt, c \in OptK}
  \cup {[Ev(op) EXCEPT !.g = g, !.mem = m] : op \in {"add", "radd"}, m \in Some(s)}
  \cup {[Ev("mul") EXCEPT !.g = g, !.i = i] : i \in {0, 2}}
  \cup {[Ev("copy") EXCEPT !.g = g]}
MapOps(s, g) ==
  {[Ev(op) EXCEPT !.g = g, !.key = k, !.o = o] : op \in {"set", "setdefault"}, k \in Keys, o \in {0, 1}}
  \cup {[Ev(op) EXCEPT !.g = g, !.key = k] : op \in {"del", "get", "contains"}, k \in Keys}
  \cup {[Ev(op) EXCEPT !.g = g, !.key = k, !.flag = f] : op \in {"pop", "move"}, k \in Keys, f \in BOOLEAN}
  \cup {[Ev("popitem") EXCEPT !.g = g, !.flag = f] : f \in BOOLEAN}
  \cup {[Ev(op) EXCEPT !.g = g] : op \in {"clear", "rev"}}
  \cup {[Ev(op) EXCEPT !.g = g, !.keys = <<k>>, !.mem = <<1>>] : op \in {"update", "ior"}, k \in Keys}
  \cup {[Ev("eqgroup") EXCEPT !.g = g, !.i = i] : i \in {x \in DOMAIN s.groups : s.groups[x].like = "map"}}
MapMore(s, g) ==
  {[Ev("or") EXCEPT !.g = g, !.keys = <<k>>, !.mem = <<1>>] : k \in Keys}
  \cup {[Ev("fromkeys") EXCEPT !.g = g, !.keys = <<k>>, !.o = 1] : k \in Keys}
  \cup {[Ev("copy") EXCEPT !.g = g]}
Ops(s) ==
  IF s.groups = <<>> THEN (IF "list" \in Likes THEN News(s) ELSE {}) \cup (IF "map" \in Likes THEN MNews(s) ELSE {})
  ELSE UNION {Acts(s, g)
              \cup (IF s.groups[g].like = "list"
                    THEN ListOps(s, g) \cup (IF Len(s.groups) < MaxGroups THEN ListMore(s, g) ELSE {})
                    ELSE MapOps(s, g) \cup (IF Len(s.groups) < MaxGroups THEN MapMore(s, g) ELSE {}))
              : g \in DOMAIN s.groups}
(* The outputs are those of the specification.                               *)
GrEvents(s) ==
  {e \in {LET r == GrRes(s, e) IN [e EXCEPT !.err = r.err, !.out = r.out, !.calls = r.calls]
          : e \in Ops(s)}
   : LET r == GrRes(s, e) IN \A g \in DOMAIN r.groups : Len(r.groups[g].mem) <= MaxLen}

GrHStart(c) == [n |-> 0]
GrHNext(h, s, e) == h

(* C20, stated anew.                                                         *)
Whole == \A g \in DOMAIN st.groups : LET x == st.groups[g] IN
           /\ Len(x.keys) = Len(x.mem)
           /\ x.like = "map" => Distinct(x.keys)
           /\ x.like = "list" => Elems(x.keys) \subseteq {""}
NothingAppears ==
  [][\A o \in DOMAIN st.objs, n \in DOMAIN st.objs[1].attrs :
       (st.objs[o].attrs[n] = Absent) = (st'.objs[o].attrs[n] = Absent)]_mvars
SetsMembersOnly ==
  [][ev'.op = "setattr" =>
     /\ st'.groups = st.groups
     /\ LET mem == {x \in Elems(st.groups[ev'.g].mem) : x # 0}
        IN \A o \in DOMAIN st.objs :
             /\ o \notin mem => st'.objs[o] = st.objs[o]
             /\ (ev'.err = "" /\ o \in mem /\ st.objs[o].attrs[ev'.name] # Absent)
                => st'.objs[o].attrs[ev'.name] = ev'.val
             /\ [st'.objs[o] EXCEPT !.attrs[ev'.name] = st.objs[o].attrs[ev'.name]] = st.objs[o]]_mvars
RunsMembersOnly ==
  [][ev'.op = "do" =>
     LET has(x) == x # 0 /\ st.objs[x].meths[ev'.name] # Absent
         ms == SelectSeq(st.groups[ev'.g].mem, has)
         c == ev'.calls
     IN /\ st' = st
        /\ Len(c) <= Len(ms)
        /\ \A k \in DOMAIN c : c[k] = <<ms[k], ev'.name, ev'.val>>
        /\ ev'.err = "" => Len(c) = Len(ms)]_mvars
OthersStay ==
  [][ev'.op \notin {"new"} => \A g \in DOMAIN st.groups :
       g = ev'.g \/ st'.groups[g] = st.groups[g]]_mvars
FailedIsNoOp == [][(ev'.err # "" /\ ev'.op # "setattr") => st' = st]_mvars
=============================================================================
