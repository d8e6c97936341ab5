-------------------------------- MODULE Range -------------------------------
(* Ranges of dates, times and datetimes: C17, C18, C19, and parts of C21.    *)
(*                                                                           *)
(* Values are numbers of ticks (what a tick is differs from trace to trace;  *)
(* it divides all values and steps).  Times are numbers of ticks modulo a    *)
(* day.  A range stands for the sequence of its values, which is always      *)
(* arithmetic: registers hold start, step and len of it.  stopped is FALSE   *)
(* if the sequence does not determine what would come next.                  *)
(* kind: what type the values have; ranges of different kinds have no value  *)
(* in common.  wrap: values are times of a day of s.day ticks.               *)
EXTENDS Common

RaStart(c) == [day |-> c.day, regs |-> <<>>]
Alien == "alien"      (* something that is not a value of the kind *)
Big == 1000000000     (* stands for everything beyond *)

Reg(kind, wrap, a, d, n) ==
  [kind |-> kind, wrap |-> wrap, start |-> a, step |-> d, len |-> n, stopped |-> TRUE]
W(s, r, x) == IF r.wrap THEN x % s.day ELSE x
Val(s, r, i) == W(s, r, r.start + i * r.step)           (* i from 0 *)
Values(s, r) == [i \in 1..r.len |-> Val(s, r, i - 1)]
Prefix(s, r, n) == [i \in 1..Min(n, r.len) |-> Val(s, r, i - 1)]
Suffix(s, r, n) == [i \in 1..Min(n, r.len) |-> Val(s, r, r.len - i)]   (* backwards *)

(* ---- Python's slices, of a sequence of n things: arguments are            *)
(* <<>> (None) or <<number>>.                                                *)
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
SliceStep(c) == IF c = <<>> THEN 1 ELSE c[1]
Bound(a, n, k, default) ==
  IF a = <<>> THEN default
  ELSE LET x == IF a[1] < 0 THEN a[1] + n ELSE a[1]
       IN IF k > 0 THEN Clip(x, 0, n) ELSE Clip(x, -1, n - 1)
SliceFrom(a, n, k) == Bound(a, n, k, IF k > 0 THEN 0 ELSE n - 1)
SliceTo(b, n, k) == Bound(b, n, k, IF k > 0 THEN n ELSE -1)
CeilDiv(x, y) == (x + y - 1) \div y                       (* y > 0 *)
Steps(from, to, k) ==
  IF k > 0 THEN IF from < to THEN CeilDiv(to - from, k) ELSE 0
  ELSE IF from > to THEN CeilDiv(from - to, -k) ELSE 0
Sliced(s, r, a, b, c) ==
  LET k == SliceStep(c)
      f == SliceFrom(a, r.len, k)
      n == Steps(f, SliceTo(b, r.len, k), k)
  IN CASE n = 0 -> [r EXCEPT !.len = 0, !.stopped = FALSE]
       [] n = 1 -> [r EXCEPT !.start = r.start + f * r.step, !.len = 1, !.stopped = FALSE]
       [] OTHER -> [r EXCEPT !.start = r.start + f * r.step, !.step = r.step * k, !.len = n,
                             !.stopped = TRUE]

(* ---- Where a value is in a range.                                         *)
Spans(s, r) == IF r.wrap THEN (r.len * (IF r.step < 0 THEN -r.step ELSE r.step)) \div s.day + 2 ELSE 0
At(s, r, x) ==
  LET cands == {IF r.wrap THEN (x % s.day) + k * s.day + (r.start - (r.start % s.day)) ELSE x
                : k \in (0 - Spans(s, r))..Spans(s, r)}
      hits == {y \in cands : (y - r.start) % (IF r.step < 0 THEN -r.step ELSE r.step) = 0}
      \* (y - start) / step, for a negative step as well
      is == {IF r.step < 0 THEN (r.start - y) \div (-r.step) ELSE (y - r.start) \div r.step : y \in hits}
  IN IF r.len = 1 THEN IF W(s, r, x) = Val(s, r, 0) THEN {0} ELSE {}
     ELSE {i \in is : 0 <= i /\ i < r.len}
Found(s, r, e) == IF e.x = Alien THEN {} ELSE At(s, r, e.v)
Limited(r, is, a, b) ==
  {i \in is : SliceFrom(a, r.len, 1) <= i /\ i < SliceTo(b, r.len, 1)}
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
(* Whether the same value is there again and again.                          *)
Again(s, r) == r.wrap /\ r.len * (IF r.step < 0 THEN -r.step ELSE r.step) > s.day

Equal(s, p, q) ==
  IF p.len = 0 \/ q.len = 0 THEN p.len = q.len
  ELSE /\ p.len = q.len
       /\ p.kind = q.kind
       /\ Val(s, p, 0) = Val(s, q, 0)
       /\ p.len = 1 \/ Val(s, p, 1) = Val(s, q, 1)

(* ---- The factory.                                                         *)
Before(x, y, d) == IF d > 0 THEN x < y ELSE x > y
RealStop(s, e) ==
  IF ~e.wrap THEN e.b
  ELSE IF e.a = e.b THEN e.a + (IF e.d > 0 THEN s.day ELSE -s.day)
  ELSE IF Before(e.a, e.b, e.d) THEN e.b
  ELSE e.b + (IF e.d > 0 THEN s.day ELSE -s.day)
Made(s, e) == Reg(e.kind, e.wrap, e.a, e.d, Steps(e.a, RealStop(s, e), e.d))

None3 == <<>>
RaApply(s, e) ==
  IF e.err # "" THEN s
  ELSE CASE e.op = "ctor" -> [s EXCEPT !.regs = Append(@, Reg(e.kind, e.wrap, e.a, e.d, e.n))]
         [] e.op = "factory" -> [s EXCEPT !.regs = Append(@, Made(s, e))]
         [] e.op = "slice" ->
              [s EXCEPT !.regs = Append(@, Sliced(s, s.regs[e.i], e.sa, e.sb, e.sc))]
         [] OTHER -> s

(* e.vals: values, each <<number of ticks>> or <<>> for a value of a wrong   *)
(* type or timezone or between ticks.                                        *)
Shown(vals) == [x \in DOMAIN vals |-> <<vals[x]>>]
Reads(s, r, e) ==
  /\ e.n = r.len
  /\ e.vals = Shown(Prefix(s, r, e.max))
  /\ e.rev = Shown(Suffix(s, r, e.max))

RaClauses(s, e) ==
  CASE e.op \in {"ctor", "factory"} ->
         << <<"C21", "settings that work are accepted, others rejected with the right error",
              IF e.good THEN e.err = ""
              ELSE e.err \in {"ValueError", "TypeError", "AttributeError"}>>,
            <<"C19", "a range that can be made is made", e.good => e.err = "">> >>
    [] e.op = "slice" ->
         << <<"C17", "slices work, unless the step is zero",
              IF e.sc = <<0>> THEN e.err = "ValueError" ELSE e.err = "">>,
            <<"C17", "a slice is a range of the same type", e.err # "" \/ e.same>> >>
    [] e.op = "get" ->
         LET r == s.regs[e.i]
             x == IF e.n < 0 THEN e.n + r.len ELSE e.n
         IN << <<"C17", "the value at an index, or an IndexError",
                 IF 0 <= x /\ x < r.len
                 THEN e.err = "" /\ e.vals = <<<<Val(s, r, x)>>>>
                 ELSE e.err = "IndexError">> >>
    [] e.op = "badget" -> << <<"C17", "an index that is not a number is a TypeError", e.err = "TypeError">> >>
    [] e.op = "read" ->
         LET r == s.regs[e.i]
         IN << <<"C17", "length and iteration both ways", e.err = "" /\ Reads(s, r, e)>>,
               <<"C19", "exactly the values that come before stop",
                 ~e.fresh \/ (e.err = "" /\ Reads(s, r, e))>>,
               <<"C21", "ranges stay as they are", e.fresh \/ (e.err = "" /\ Reads(s, r, e))>> >>
    [] e.op = "stop" ->
         LET r == s.regs[e.i]
         IN << <<"C17", "stop is the value that would come next",
                 e.err = "" /\ (r.stopped => e.vals = <<<<Val(s, r, r.len)>>>>)>>,
               <<"C17", "start and step are those of the values",
                 e.err = "" /\ (r.len > 0 => e.start = <<Val(s, r, 0)>>)
                   /\ (r.stopped /\ r.len > 1 /\ ~r.wrap => e.step = <<r.step>>)>> >>
    [] e.op = "in" -> << <<"C18", "in the range exactly if it is among the values",
                           e.err = "" /\ e.res = (Found(s, s.regs[e.i], e) # {})>> >>
    [] e.op = "count" -> << <<"C18", "counted as often as it is among the values",
                              e.err = "" /\ e.n = Cardinality(Found(s, s.regs[e.i], e))>> >>
    [] e.op = "index" ->
         LET r == s.regs[e.i]
             is == Limited(r, Found(s, r, e), e.sa, e.sb)
         IN << <<"C18", "the first index within the limits, or a ValueError",
                 IF is = {} THEN e.err = "ValueError" ELSE e.err = "" /\ e.n = Least(is)>> >>
    [] e.op = "eq" ->
         LET same == Equal(s, s.regs[e.i], s.regs[e.j])
         IN << <<"C18", "equal exactly if the values are the same in the same order",
                 e.err = "" /\ e.res = same /\ e.ne = ~same>>,
               <<"C18", "equal ranges have equal hashes", e.err = "" /\ (same => e.hash)>> >>
    [] e.op = "eq_other" -> << <<"C18", "nothing else is equal to a range", e.err = "" /\ ~e.res /\ e.ne>> >>
    [] e.op = "set" -> << <<"C21", "start, stop, step and length cannot be changed",
                            e.err = "AttributeError">> >>
    [] OTHER -> <<>>
RaFails(s, e) == Failing(RaClauses(s, e))

Size(n) == IF n = 0 THEN "none" ELSE IF n = 1 THEN "one" ELSE "some"
RaTag(s, e) ==
  e.op \o "/" \o
  (CASE e.op \in {"ctor", "factory"} ->
          IF ~e.good THEN "rejected"
          ELSE e.kind \o (IF e.op = "ctor" THEN ""
                          ELSE "/" \o Size(Made(s, e).len)
                               \o (IF e.wrap /\ RealStop(s, e) # e.b THEN "/wraps" ELSE "")
                               \o (IF e.d < 0 THEN "/down" ELSE ""))
     [] e.op = "slice" ->
          IF e.sc = <<0>> THEN "zero"
          ELSE Size(Sliced(s, s.regs[e.i], e.sa, e.sb, e.sc).len) \o (IF SliceStep(e.sc) < 0 THEN "/down" ELSE "")
     [] e.op \in {"get", "badget", "stop", "set", "eq_other"} -> IF e.err = "" THEN "ok" ELSE e.err
     [] e.op = "read" -> Size(s.regs[e.i].len)
     [] e.op \in {"in", "count", "index"} ->
          (IF e.x = Alien THEN "alien" ELSE IF Found(s, s.regs[e.i], e) = {} THEN "not there" ELSE "there")
          \o (IF Again(s, s.regs[e.i]) THEN "/repeats" ELSE "")
     [] e.op = "eq" -> IF Equal(s, s.regs[e.i], s.regs[e.j]) THEN "equal" ELSE "different"
     [] OTHER -> "")
=============================================================================
