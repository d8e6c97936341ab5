-------------------------------- MODULE FarMC -------------------------------
(* Far for a day of a few microseconds and a small Base, against plain       *)
(* sequences of values.                                                      *)
EXTENDS MCBase, Far
CONSTANTS Day, Starts, StepsOf, Lens, Args, Ks, MaxRegs, Finds

RECURSIVE L(_)
L(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o L(n \div Base)
RECURSIVE N(_)
N(l) == IF l = <<>> THEN 0 ELSE Head(l) + Base * N(Tail(l))
Abs(n) == IF n < 0 THEN -n ELSE n
Sg(n) == [neg |-> n < 0, m |-> L(Abs(n))]
SgOpt(S) == {<<>>} \cup {<<Sg(x)>> : x \in S}
Value(v, q) == [ok |-> TRUE, v |-> L(v), q |-> L(q)]
Ev(op) == [op |-> op, i |-> 0, j |-> 0, kind |-> "", a |-> <<>>, b |-> <<>>, neg |-> FALSE, d |-> <<>>,
           n |-> <<>>, sa |-> <<>>, sb |-> <<>>, sc |-> <<>>, err |-> "", vals |-> <<>>, rev |-> <<>>,
           max |-> 5, fresh |-> FALSE, first |-> Value(0, 0), idx |-> Sg(0), off |-> <<>>,
           res |-> FALSE, ne |-> FALSE, hash |-> FALSE]
FaCfgs == {[day |-> L(Day)]}
Kinds == {"time", "naive"}
Ok(kind, a, d) == kind = "naive" \/ (a < Day /\ Abs(d) < Day)
(* Values before the first of the calendar do not exist.                     *)
InCalendar(kind, a, d, n) == kind = "time" \/ a + d * n >= 0
News(s) == {[Ev("ctor") EXCEPT !.kind = k, !.a = L(a), !.neg = d < 0, !.d = L(Abs(d)), !.n = L(n)] :
            <<k, a, d, n>> \in {x \in Kinds \X Starts \X StepsOf \X Lens :
                                  Ok(x[1], x[2], x[3]) /\ InCalendar(x[1], x[2], x[3], x[4])}}
Factories(s) == {[Ev("factory") EXCEPT !.kind = x[1], !.a = L(x[2]), !.b = L(x[3]), !.neg = x[4] < 0,
                                       !.d = L(Abs(x[4])), !.n = L(x[5])] :
                 x \in {y \in Kinds \X Starts \X Starts \X StepsOf \X (0..9) :
                          Ok(y[1], y[2], y[4]) /\ Ok(y[1], y[3], y[4])}}
Slices(s) == {e \in {[Ev("slice") EXCEPT !.i = i, !.sa = a, !.sb = b, !.sc = k, !.n = L(n), !.a = L(v),
                                         !.first = Value(v, q)]
                     : i \in DOMAIN s.regs, a \in SgOpt(Args), b \in SgOpt(Args), k \in SgOpt(Ks),
                       n \in Lens, v \in 0..9, q \in {0, 1}}
              : /\ e.n = <<>> => e.first = Value(0, 0)
                /\ N(e.n) <= N(s.regs[e.i].len)
                /\ (s.regs[e.i].kind = "time" /\ Less(LOne, e.n)) =>
                     (e.sc = <<>> \/ Less(Times(s.regs[e.i].step, e.sc[1].m), s.day))}
Gets(s) == UNION {{[Ev("get") EXCEPT !.i = i, !.idx = Sg(n), !.vals = <<Value(v, q)>>]
                   : v \in 0..14, q \in 0..2, n \in (-N(s.regs[i].len))..(N(s.regs[i].len) - 1)}
                  : i \in DOMAIN s.regs}
Indexes(s) == UNION {{[Ev("index") EXCEPT !.i = i, !.idx = Sg(x), !.sa = a, !.sb = b, !.n = L(n), !.err = err]
                      : a \in SgOpt(Args), b \in SgOpt(Args), x \in 0..3, n \in 0..3,
                        err \in {"", "ValueError"}} : i \in DOMAIN s.regs}
Eqs(s) == {[Ev("eq") EXCEPT !.i = i, !.j = j, !.res = b, !.ne = ~b, !.hash = b]
           : i \in DOMAIN s.regs, j \in DOMAIN s.regs, b \in BOOLEAN}
FaEvents(s) ==
  IF s.regs = <<>> THEN News(s) \cup (IF "get" \in Finds THEN Factories(s) ELSE {})
  ELSE (IF Len(s.regs) >= MaxRegs THEN {}
        ELSE IF "eq" \in Finds THEN News(s) ELSE IF "get" \in Finds THEN Slices(s) ELSE {})
       \cup (IF "get" \in Finds THEN Gets(s) ELSE {})
       \cup (IF "index" \in Finds THEN Indexes(s) ELSE {})
       \cup (IF "eq" \in Finds THEN Eqs(s) ELSE {})

(* ---- Plain sequences.                                                     *)
RECURSIVE From(_, _, _, _)
From(S, x, to, k) == IF (k > 0 /\ x >= to) \/ (k < 0 /\ x <= to) THEN <<>>
                     ELSE <<S[x + 1]>> \o From(S, x + k, to, k)
Int1(o) == IF o[1].neg THEN -N(o[1].m) ELSE N(o[1].m)
ListSlice(S, a, b, c) ==
  LET n == Len(S)
      k == IF c = <<>> THEN 1 ELSE Int1(c)
      Adj(x) == IF x < 0 THEN x + n ELSE x
      lo(x) == IF k > 0 THEN Max(0, Min(n, Adj(x))) ELSE Max(-1, Min(n - 1, Adj(x)))
      i == IF a = <<>> THEN IF k > 0 THEN 0 ELSE n - 1 ELSE lo(Int1(a))
      j == IF b = <<>> THEN IF k > 0 THEN n ELSE -1 ELSE lo(Int1(b))
  IN From(S, i, j, k)
D(e) == IF e.neg THEN -N(e.d) ELSE N(e.d)
ListNew(e) == [x \in 1..N(e.n) |-> IF e.kind = "time" THEN (N(e.a) + (x - 1) * D(e)) % Day
                                   ELSE N(e.a) + (x - 1) * D(e)]
RECURSIVE Walk(_, _, _)
Walk(x, to, d) == IF (d > 0 /\ x < to) \/ (d < 0 /\ x > to) THEN <<x>> \o Walk(x + d, to, d) ELSE <<>>
ListMade(e) ==
  IF e.kind # "time" THEN Walk(N(e.a), N(e.b), D(e))
  ELSE LET away == (IF e.neg THEN N(e.a) - N(e.b) ELSE N(e.b) - N(e.a)) % Day
           far == IF away = 0 THEN Day ELSE away
           w == Walk(0, IF e.neg THEN -far ELSE far, D(e))
       IN [x \in DOMAIN w |-> (N(e.a) + w[x]) % Day]
FaHStart(c) == <<>>
FaHNext(h, s, e) ==
  CASE e.op = "ctor" -> Append(h, ListNew(e))
    [] e.op = "factory" -> Append(h, ListMade(e))
    [] e.op = "slice" /\ e.err = "" -> Append(h, ListSlice(h[e.i], e.sa, e.sb, e.sc))
    [] OTHER -> h

(* The lengths are those of the lists, and the values too.                   *)
Lengths == \A x \in DOMAIN st.regs : st.regs[x].len = L(Len(hist[x]))
Right(x) == LET r == st.regs[x] IN
  \A i \in DOMAIN hist[x] : \E q \in 0..3 : IsValue(st, r, L(i - 1), Value(hist[x][i], q))
Only(x) == LET r == st.regs[x] IN
  \A i \in DOMAIN hist[x] : \A q \in 0..3, v \in 0..14 :
     IsValue(st, r, L(i - 1), Value(v, q)) => v = hist[x][i]
Values == \A x \in DOMAIN st.regs : Right(x) /\ Only(x)
Places(S, v) == {x \in DOMAIN S : S[x] = v}
Answers ==
  [][LET e == ev' IN
     e.op \in {"get", "index", "eq"} =>
     LET S == hist[e.i]
         n == Len(S)
         k == IF e.idx.neg THEN n - N(e.idx.m) ELSE N(e.idx.m)
     IN CASE e.op = "get" /\ e.err = "" -> N(e.vals[1].v) = S[k + 1]
          [] e.op = "index" ->
               LET part == {y \in 1..n :
                              /\ y - 1 >= (IF e.sa = <<>> THEN 0 ELSE IF Int1(e.sa) < 0 THEN Int1(e.sa) + n ELSE Int1(e.sa))
                              /\ y - 1 < (IF e.sb = <<>> THEN n ELSE IF Int1(e.sb) < 0 THEN Int1(e.sb) + n ELSE Int1(e.sb))}
               IN IF e.err = "" THEN N(e.n) = k /\ k + 1 \in part ELSE k + 1 \notin part
          [] OTHER -> e.res = (S = hist[e.j] /\ (S = <<>> \/ st.regs[e.i].kind = st.regs[e.j].kind))]_mvars
=============================================================================
