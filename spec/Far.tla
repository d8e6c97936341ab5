--------------------------------- MODULE Far --------------------------------
(* Ranges of dates, times and datetimes again (C17, C18, C19), with exact    *)
(* numbers of microseconds instead of ticks: ranges of any length and values *)
(* anywhere in the calendar.                                                 *)
(*                                                                           *)
(* Dates and datetimes are numbers of microseconds since the first day of    *)
(* the calendar (of UTC, for those with a timezone), times since midnight.   *)
(* All numbers are Limbs.  A value in an event is                            *)
(*   [ok |-> it is a value of the range's type and timezone, v |-> number,   *)
(*    q |-> number of midnights that were passed to get there (times only)]. *)
(* q is part of the event because finding it would take a division; it is    *)
(* checked as all else.  So are the lengths of ranges that the factory and   *)
(* slices make.  Steps and indexes have a sign: neg is TRUE for less than 0. *)
EXTENDS Common, Limbs

FaStart(c) == [day |-> c.day, regs |-> <<>>]
FReg(kind, a, neg, d, n, known) ==
  [kind |-> kind, start |-> a, neg |-> neg, step |-> d, len |-> n, known |-> known]
IsTime(r) == r.kind = "time"

(* Whether x is the value at index i.                                        *)
IsValue(s, r, i, x) ==
  LET way == Times(i, r.step)
      nights == Times(x.q, s.day)
  IN /\ x.ok
     /\ IF IsTime(r) THEN Less(x.v, s.day) ELSE x.q = <<>>
     /\ IF r.neg THEN Plus(x.v, way) = Plus(r.start, nights)
        ELSE Plus(x.v, nights) = Plus(r.start, way)
AreValues(s, r, xs, from) == \A j \in DOMAIN xs : IsValue(s, r, Plus(from, Small(j - 1)), xs[j])
AreBackwards(s, r, xs) == \A j \in DOMAIN xs : IsValue(s, r, Minus(r.len, Small(j)), xs[j])
ReadLen(r, e) == IF Less(r.len, Small(e.max)) THEN r.len ELSE Small(e.max)

(* ---- Positions for slices, 1 more than the index: 0 is before the first.  *)
Place(x, r) == IF x.neg THEN Minus(Plus(r.len, LOne), x.m) ELSE Plus(x.m, LOne)
FClip(p, r, neg) == IF neg THEN LMin(p, r.len)
                    ELSE IF p = <<>> THEN LOne ELSE LMin(p, Plus(r.len, LOne))
PlaceFrom(a, r, neg) == IF a = <<>> THEN IF neg THEN r.len ELSE LOne ELSE FClip(Place(a[1], r), r, neg)
PlaceTo(b, r, neg) == IF b = <<>> THEN IF neg THEN <<>> ELSE Plus(r.len, LOne)
                      ELSE FClip(Place(b[1], r), r, neg)
(* n is the number of steps of d that start before span is used up.          *)
Covers(n, d, span) == IF n = <<>> THEN span = <<>>
                      ELSE Less(Times(Minus(n, LOne), d), span) /\ AtMost(span, Times(n, d))
Cut(r, e) ==
  LET k == IF e.sc = <<>> THEN [neg |-> FALSE, m |-> LOne] ELSE e.sc[1]
      f == PlaceFrom(e.sa, r, k.neg)
      t == PlaceTo(e.sb, r, k.neg)
  IN [k |-> k, from |-> Minus(f, LOne), span |-> IF k.neg THEN Minus(f, t) ELSE Minus(t, f)]
(* The slice, of the length and with the first value given.                  *)
FSliced(r, e) ==
  LET c == Cut(r, e)
  IN IF Less(LOne, e.n)
     THEN FReg(r.kind, e.a, r.neg # c.k.neg, Times(r.step, c.k.m), e.n, TRUE)
     ELSE FReg(r.kind, e.a, r.neg, r.step, e.n, FALSE)

(* ---- The factory.                                                         *)
FSpan(s, e) ==
  LET up == Minus(e.b, e.a) down == Minus(e.a, e.b)
  IN IF e.kind # "time" THEN IF e.neg THEN down ELSE up
     ELSE IF e.a = e.b THEN s.day
     ELSE IF e.neg THEN IF down # <<>> THEN down ELSE Minus(s.day, up)
     ELSE IF up # <<>> THEN up ELSE Minus(s.day, down)

FaApply(s, e) ==
  IF e.err # "" THEN s
  ELSE CASE e.op \in {"ctor", "factory"} ->
              [s EXCEPT !.regs = Append(@, FReg(e.kind, e.a, e.neg, e.d, e.n, TRUE))]
         [] e.op = "slice" -> [s EXCEPT !.regs = Append(@, FSliced(s.regs[e.i], e))]
         [] OTHER -> s

FSame(s, p, q) ==
  IF p.len = <<>> \/ q.len = <<>> THEN p.len = q.len
  ELSE /\ p.len = q.len /\ p.kind = q.kind /\ p.start = q.start
       /\ \/ p.len = LOne
          \/ p.neg = q.neg /\ p.step = q.step
          \/ IsTime(p) /\ p.neg # q.neg /\ Plus(p.step, q.step) = s.day

FaClauses(s, e) ==
  CASE e.op = "ctor" -> << <<"C17", "a range is made", e.err = "">> >>
    [] e.op = "factory" ->
         << <<"C19", "as many values as come before stop", e.err = "" /\ Covers(e.n, e.d, FSpan(s, e))>> >>
    [] e.op = "slice" ->
         << <<"C17", "slices have the right length and start",
              /\ e.err = ""
              /\ Covers(e.n, Cut(s.regs[e.i], e).k.m, Cut(s.regs[e.i], e).span)
              /\ e.n # <<>> => IsValue(s, s.regs[e.i], Cut(s.regs[e.i], e).from, e.first)
                               /\ e.first.v = e.a>> >>
    [] e.op = "get" ->
         LET r == s.regs[e.i]
             i == IF e.idx.neg THEN Minus(r.len, e.idx.m) ELSE e.idx.m
             there == IF e.idx.neg THEN AtMost(e.idx.m, r.len) ELSE Less(e.idx.m, r.len)
         IN << <<"C17", "the value at an index, or an IndexError",
                 IF there THEN e.err = "" /\ Len(e.vals) = 1 /\ IsValue(s, r, i, e.vals[1])
                 ELSE e.err = "IndexError">> >>
    [] e.op = "read" ->
         LET r == s.regs[e.i]
             all == /\ e.err = "" /\ e.n = r.len
                    /\ Small(Len(e.vals)) = ReadLen(r, e) /\ Small(Len(e.rev)) = ReadLen(r, e)
                    /\ AreValues(s, r, e.vals, <<>>) /\ AreBackwards(s, r, e.rev)
         IN << <<"C17", "length and iteration both ways", all>>,
               <<"C19", "exactly the values that come before stop", ~e.fresh \/ all>> >>
    [] e.op = "stop" ->
         LET r == s.regs[e.i]
         IN << <<"C17", "stop is the value that would come next",
                 e.err = "" /\ (r.known => Len(e.vals) = 1 /\ IsValue(s, r, r.len, e.vals[1]))>> >>
    (* The value sought is off microseconds beyond (or before, if the step   *)
    (* is less than 0) that at index idx, and off is less than the step.     *)
    [] e.op \in {"in", "count", "index"} ->
         LET r == s.regs[e.i]
             there == e.off = <<>> /\ Less(e.idx.m, r.len)
             p == Plus(e.idx.m, LOne)
             seen == there /\ AtMost(PlaceFrom(e.sa, r, FALSE), p) /\ Less(p, PlaceTo(e.sb, r, FALSE))
         IN << <<"C18", "found exactly where it is",
                 /\ Less(e.off, r.step) \/ (r.len = LOne /\ e.off = <<>>)
                 /\ CASE e.op = "in" -> e.err = "" /\ e.res = there
                      [] e.op = "count" -> e.err = "" /\ e.n = (IF there THEN LOne ELSE <<>>)
                      [] OTHER -> IF seen THEN e.err = "" /\ e.n = e.idx.m ELSE e.err = "ValueError">> >>
    [] e.op = "eq" ->
         LET same == FSame(s, s.regs[e.i], s.regs[e.j])
         IN << <<"C18", "equal exactly if the values are the same in the same order",
                 e.err = "" /\ e.res = same /\ e.ne = ~same /\ (same => e.hash)>> >>
    [] OTHER -> <<>>
FaFails(s, e) == Failing(FaClauses(s, e))

Digits(n) == IF n = <<>> THEN "none" ELSE IF Len(n) = 1 THEN "few" ELSE "many"
FaTag(s, e) ==
  e.op \o "/" \o
  (CASE e.op \in {"ctor", "factory", "slice"} -> e.kind \o "/" \o Digits(e.n) \o (IF e.neg THEN "/down" ELSE "")
     [] e.op = "get" -> (IF e.err = "" THEN "ok/" \o Digits(e.idx.m) ELSE e.err)
     [] e.op \in {"in", "count", "index"} -> (IF e.off = <<>> THEN "on step" ELSE "between") \o "/" \o Digits(e.idx.m)
     [] e.op = "eq" -> IF FSame(s, s.regs[e.i], s.regs[e.j]) THEN "equal" ELSE "different"
     [] OTHER -> Digits(s.regs[e.i].len))
=============================================================================
