-------------------------------- MODULE ZoneMC ------------------------------
(* Exhaustive exploration of Zone for three small zones, against plain       *)
(* sequences of clock times and a table of what the clocks show when.        *)
EXTENDS MCBase, Zone
CONSTANTS Starts, StepsOf, Lens, Looks, Stops, MaxRegs, Finds, Limits

Zones3 == [a |-> [offs |-> <<0>>, ats |-> <<>>],
           b |-> [offs |-> <<1, 2, 1>>, ats |-> <<4, 9>>],
           c |-> [offs |-> <<-1, -3>>, ats |-> <<6>>]]
Names == DOMAIN Zones3
ZnCfgs == {[zones |-> Zones3]}
Ev(op) == [op |-> op, i |-> 0, j |-> 0, kind |-> "", wrap |-> FALSE, a |-> 0, b |-> 0, d |-> 1,
           n |-> 0, sa |-> <<>>, sb |-> <<>>, sc |-> <<>>, good |-> TRUE, err |-> "",
           vals |-> <<>>, rev |-> <<>>, max |-> 50, fresh |-> FALSE, same |-> TRUE,
           start |-> <<>>, step |-> <<>>, x |-> "", v |-> 0, zb |-> "", res |-> FALSE, ne |-> FALSE,
           hash |-> FALSE]
News(s) == {[Ev("ctor") EXCEPT !.kind = k, !.a = a, !.d = d, !.n = n]
            : k \in Names, a \in Starts, d \in StepsOf, n \in Lens}
Factories(s) == {e \in {[Ev("factory") EXCEPT !.kind = k, !.a = a, !.b = b, !.d = d, !.zb = z]
                        : k \in Names, z \in Names, a \in Starts, b \in Stops, d \in StepsOf}
                 : Usable(s, e)}
Limit == {<<>>} \cup {<<x>> : x \in Limits}
Ins(s) == {[Ev("in") EXCEPT !.i = i, !.v = v, !.zb = z, !.res = b]
           : i \in DOMAIN s.regs, v \in Looks, z \in Names, b \in BOOLEAN}
Counts(s) == {[Ev("count") EXCEPT !.i = i, !.v = v, !.zb = z, !.n = n]
              : i \in DOMAIN s.regs, v \in Looks, z \in Names, n \in 0..2}
Indexes(s) == UNION {{[Ev("index") EXCEPT !.i = i, !.v = v, !.zb = z, !.sa = a, !.n = n, !.err = x]
                      : v \in Looks, z \in Names, a \in Limit, n \in 0..s.regs[i].len, x \in {"", "ValueError"}}
                     : i \in DOMAIN s.regs}
Eqs(s) == {[Ev("eq") EXCEPT !.i = i, !.j = j, !.res = b, !.ne = ~b, !.hash = h]
           : i \in DOMAIN s.regs, j \in DOMAIN s.regs, b \in BOOLEAN, h \in BOOLEAN}
ZnEvents(s) ==
  IF s.regs = <<>> THEN News(s) \cup (IF "in" \in Finds THEN Factories(s) ELSE {})
  ELSE (IF "in" \in Finds THEN Ins(s) \cup Counts(s) ELSE {})
       \cup (IF "index" \in Finds THEN {e \in Indexes(s) : e.err = "" \/ e.n = 0} ELSE {})
       \cup (IF "eq" \in Finds THEN Eqs(s) \cup (IF Len(s.regs) < MaxRegs THEN News(s) ELSE {}) ELSE {})

(* ---- What the clocks show, instant by instant.                            *)
Time == -10..25
Shows(k, u) ==
  CASE k = "a" -> u
    [] k = "b" -> IF u < 4 THEN u + 1 ELSE IF u < 9 THEN u + 2 ELSE u + 1
    [] k = "c" -> IF u < 6 THEN u - 1 ELSE u - 3
Whens(k, w) == {u \in Time : Shows(k, u) = w}
SameMoment(k, w, l, x) == IF k = l THEN w = x
                          ELSE \E u \in Time : Whens(k, w) = {u} /\ Whens(l, x) = {u}
(* The instant that stands for a time: the first, or what it would be if the *)
(* clock had not been put forward.                                           *)
Meant(k, w) == IF Whens(k, w) # {} THEN Least(Whens(k, w))
               ELSE CASE k = "b" -> w - 1 [] OTHER -> w + 1
RECURSIVE WalkTo(_, _, _, _, _, _)
WalkTo(k, w, z, b, d, n) ==
  LET here == IF k = z THEN w ELSE Meant(k, w)
      stop == IF k = z THEN b ELSE Meant(z, b)
  IN IF n > 0 /\ ((d > 0 /\ here < stop) \/ (d < 0 /\ here > stop))
     THEN <<w>> \o WalkTo(k, w + d, z, b, d, n - 1) ELSE <<>>
ListMade(e) == WalkTo(e.kind, e.a, e.zb, e.b, e.d, 30)

ZnHStart(c) == <<>>
ZnHNext(h, s, e) ==
  CASE e.op = "ctor" -> Append(h, [k |-> e.kind, l |-> [x \in 1..e.n |-> e.a + (x - 1) * e.d]])
    [] e.op = "factory" -> Append(h, [k |-> e.kind, l |-> ListMade(e)])
    [] OTHER -> h

Same == \A x \in DOMAIN st.regs : Values(st, st.regs[x]) = hist[x].l
Places(h, k, v) == {x \in DOMAIN h.l : SameMoment(h.k, h.l[x], k, v)}
Answers ==
  [][LET e == ev' IN
     e.op \in {"in", "count", "index", "eq"} =>
     LET h == hist[e.i]
     IN CASE e.op = "in" -> e.res = (Places(h, e.zb, e.v) # {})
          [] e.op = "count" -> e.n = Cardinality(Places(h, e.zb, e.v))
          [] e.op = "index" ->
               LET part == {x \in Places(h, e.zb, e.v) :
                              x - 1 >= (IF e.sa = <<>> THEN 0 ELSE IF e.sa[1] < 0 THEN e.sa[1] + Len(h.l) ELSE e.sa[1])}
               IN IF e.err = "" THEN e.n + 1 \in part /\ \A y \in part : e.n + 1 <= y
                  ELSE part = {}
          [] OTHER -> LET q == hist[e.j] IN
                      /\ e.res = (/\ Len(h.l) = Len(q.l)
                                  /\ \A x \in DOMAIN h.l : SameMoment(h.k, h.l[x], q.k, q.l[x]))
                      /\ e.res => e.hash]_mvars
=============================================================================
