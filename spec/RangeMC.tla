------------------------------- MODULE RangeMC ------------------------------
(* Exhaustive exploration of Range for a day of a few ticks, against plain   *)
(* sequences of values.                                                      *)
EXTENDS MCBase, Range
CONSTANTS Day, Starts, StepsOf, Lens, Args, Ks, MaxRegs, Finds, Wraps, Limits

Ev(op) == [op |-> op, i |-> 0, j |-> 0, kind |-> "", wrap |-> FALSE, a |-> 0, b |-> 0, d |-> 1,
           n |-> 0, sa |-> <<>>, sb |-> <<>>, sc |-> <<>>, good |-> TRUE, err |-> "",
           vals |-> <<>>, rev |-> <<>>, max |-> 50, fresh |-> FALSE, same |-> TRUE,
           start |-> <<>>, step |-> <<>>, x |-> "", v |-> 0, res |-> FALSE, ne |-> FALSE,
           hash |-> FALSE]
RaCfgs == {[day |-> Day]}
Kind(w) == IF w THEN "time" ELSE "naive"
News(s) == {[Ev("ctor") EXCEPT !.kind = Kind(w), !.wrap = w, !.a = a, !.d = d, !.n = n]
            : w \in Wraps, a \in Starts, d \in StepsOf, n \in Lens}
Factories(s) == {[Ev("factory") EXCEPT !.kind = Kind(w), !.wrap = w, !.a = a, !.b = b, !.d = d]
                 : w \in Wraps, a \in Starts, b \in Starts, d \in StepsOf}
Opt == {<<>>} \cup {<<x>> : x \in Args}
OptL == {<<>>} \cup {<<x>> : x \in Limits}
OptK == {<<>>} \cup {<<x>> : x \in Ks}
(* Slices with steps of a day or more are out of scope for times (they need  *)
(* a step that the implementation does not have).                            *)
Fits(s, r) == ~r.wrap \/ r.len < 2 \/ (r.step < s.day /\ r.step > 0 - s.day)
Slices(s) == {e \in {[Ev("slice") EXCEPT !.i = i, !.sa = a, !.sb = b, !.sc = k, !.err = x]
                     : i \in DOMAIN s.regs, a \in Opt, b \in Opt, k \in OptK, x \in {"", "ValueError"}}
              : e.err # "" \/ (e.sc # <<0>> /\ Fits(s, Sliced(s, s.regs[e.i], e.sa, e.sb, e.sc)))}
Ticks(r) == IF r.wrap THEN 0..(Day - 1) ELSE (0 - Day)..(2 * Day)
Gets(s) == UNION {{[Ev("get") EXCEPT !.i = i, !.n = n, !.vals = <<<<v>>>>]
                   : v \in Ticks(s.regs[i]), n \in (-s.regs[i].len)..(s.regs[i].len - 1)}
                  \cup {[Ev("get") EXCEPT !.i = i, !.n = n, !.err = "IndexError"]
                        : n \in (-s.regs[i].len - 1)..s.regs[i].len}
                  : i \in DOMAIN s.regs}
FindTicks(r) == IF r.wrap THEN 0..(Day - 1) ELSE {-1, 0, 1, 3, 5}
Ins(s) == UNION {{[Ev("in") EXCEPT !.i = i, !.v = v, !.res = b] : v \in FindTicks(s.regs[i]), b \in BOOLEAN}
                 : i \in DOMAIN s.regs}
Counts(s) == UNION {{[Ev("count") EXCEPT !.i = i, !.v = v, !.n = n]
                     : v \in FindTicks(s.regs[i]), n \in 0..s.regs[i].len} : i \in DOMAIN s.regs}
Indexes(s) == UNION {{[Ev("index") EXCEPT !.i = i, !.v = v, !.sa = a, !.sb = b, !.n = n, !.err = x]
                      : v \in FindTicks(s.regs[i]), a \in OptL, b \in OptL, n \in 0..s.regs[i].len,
                        x \in {"", "ValueError"}} : i \in DOMAIN s.regs}
Index1(s) == {e \in Indexes(s) : e.err = "" \/ e.n = 0}
Eqs(s) == {[Ev("eq") EXCEPT !.i = i, !.j = j, !.res = b, !.ne = ~b, !.hash = h]
           : i \in DOMAIN s.regs, j \in DOMAIN s.regs, b \in BOOLEAN, h \in BOOLEAN}
RaEvents(s) ==
  IF s.regs = <<>> THEN News(s) \cup Factories(s)
  ELSE (IF Len(s.regs) < MaxRegs THEN Slices(s) ELSE {})
       \cup (IF "get" \in Finds THEN Gets(s) ELSE {})
       \cup (IF "in" \in Finds THEN Ins(s) \cup Counts(s) ELSE {})
       \cup (IF "index" \in Finds THEN Index1(s) ELSE {})
       \cup (IF "eq" \in Finds THEN Eqs(s) \cup (IF Len(s.regs) < MaxRegs THEN News(s) ELSE {}) ELSE {})

(* ---- Plain sequences, as lists of Python are sliced and searched.         *)
RECURSIVE From(_, _, _, _)
From(L, x, to, k) == IF (k > 0 /\ x >= to) \/ (k < 0 /\ x <= to) THEN <<>>
                     ELSE <<L[x + 1]>> \o From(L, x + k, to, k)
ListSlice(L, a, b, c) ==
  LET n == Len(L)
      k == IF c = <<>> THEN 1 ELSE c[1]
      Adj(x) == IF x < 0 THEN x + n ELSE x
      lo(x) == IF k > 0 THEN Max(0, Min(n, Adj(x))) ELSE Max(-1, Min(n - 1, Adj(x)))
      i == IF a = <<>> THEN IF k > 0 THEN 0 ELSE n - 1 ELSE lo(a[1])
      j == IF b = <<>> THEN IF k > 0 THEN n ELSE -1 ELSE lo(b[1])
  IN From(L, i, j, k)
ListNew(s, e) == [x \in 1..e.n |-> IF e.wrap THEN (e.a + (x - 1) * e.d) % Day ELSE e.a + (x - 1) * e.d]
(* start, start + step, ... while it comes before stop; one after the other. *)
RECURSIVE Walk(_, _, _)
Walk(x, to, d) == IF (d > 0 /\ x < to) \/ (d < 0 /\ x > to) THEN <<x>> \o Walk(x + d, to, d) ELSE <<>>
ListMade(e) ==
  IF ~e.wrap THEN Walk(e.a, e.b, e.d)
  ELSE LET away == (IF e.d > 0 THEN e.b - e.a ELSE e.a - e.b) % Day
           far == IF away = 0 THEN Day ELSE away
           w == Walk(0, IF e.d > 0 THEN far ELSE -far, e.d)
       IN [x \in DOMAIN w |-> (e.a + w[x]) % Day]

RaHStart(c) == [lists |-> <<>>, wraps |-> <<>>]
RaHNext(h, s, e) ==
  CASE e.op = "ctor" -> [lists |-> Append(h.lists, ListNew(s, e)), wraps |-> Append(h.wraps, e.wrap)]
    [] e.op = "factory" -> [lists |-> Append(h.lists, ListMade(e)), wraps |-> Append(h.wraps, e.wrap)]
    [] e.op = "slice" /\ e.err = "" ->
         [lists |-> Append(h.lists, ListSlice(h.lists[e.i], e.sa, e.sb, e.sc)),
          wraps |-> Append(h.wraps, h.wraps[e.i])]
    [] OTHER -> h

(* C17, C19: every range has the values of its list.                         *)
Same == \A x \in DOMAIN st.regs : Values(st, st.regs[x]) = hist.lists[x]
(* C17: stop is the value that comes next.                                   *)
Next1 == \A x \in DOMAIN st.regs : LET r == st.regs[x] L == hist.lists[x] IN
  r.stopped /\ Len(L) > 1 =>
    Val(st, r, r.len) = W(st, r, L[Len(L)] + (L[2] - L[1]))
(* C18: positions, counts and equality are those of the lists.               *)
Places(L, v) == {x \in DOMAIN L : L[x] = v}
Answers ==
  [][LET e == ev' IN
     e.op \in {"get", "in", "count", "index", "eq"} =>
     LET L == hist.lists[e.i]
         n == Len(L)
     IN CASE e.op = "get" /\ e.err = "" -> e.vals = <<<<L[IF e.n < 0 THEN n + e.n + 1 ELSE e.n + 1]>>>>
          [] e.op = "get" -> e.n >= n \/ e.n < -n
          [] e.op = "in" -> e.res = (Places(L, e.v) # {})
          [] e.op = "count" -> e.n = Cardinality(Places(L, e.v))
          [] e.op = "index" ->
               LET part == {x \in Places(L, e.v) :
                              /\ x - 1 >= (IF e.sa = <<>> THEN 0 ELSE IF e.sa[1] < 0 THEN e.sa[1] + n ELSE e.sa[1])
                              /\ x - 1 < (IF e.sb = <<>> THEN n ELSE IF e.sb[1] < 0 THEN e.sb[1] + n ELSE e.sb[1])}
               IN IF e.err = "" THEN e.n + 1 \in part /\ \A y \in part : e.n + 1 <= y
                  ELSE part = {}
          [] OTHER -> /\ e.res = (L = hist.lists[e.j] /\ (L = <<>> \/ hist.wraps[e.i] = hist.wraps[e.j]))
                      /\ e.res => e.hash]_mvars
=============================================================================
