-------------------------------- MODULE Zone --------------------------------
(* Ranges of datetimes in time zones whose offsets change: C17, C18, C19.    *)
(*                                                                           *)
(* As in Range, but a datetime is a zone and a number of ticks on the clocks *)
(* of that zone (kind is the number of the zone, as a string).  Steps are    *)
(* steps of the clock.  Datetimes of one zone are the same if the clock      *)
(* shows the same; those of different zones, if they are the same instant.   *)
(* Where the clock shows a time twice or never, there is no such instant.    *)
(* s.zones: for each zone [offs, ats]: the offset is offs[1] before instant  *)
(* ats[1], offs[2] from there until before ats[2], and so on.                *)
EXTENDS Range

ZnStart(c) == [day |-> 0, zones |-> c.zones, regs |-> <<>>]
Offset(z, u) == z.offs[1 + Cardinality({k \in DOMAIN z.ats : z.ats[k] <= u})]
Clock(z, u) == u + Offset(z, u)
Instants(z, w) == {u \in {w - z.offs[k] : k \in DOMAIN z.offs} : Clock(z, u) = w}
Once(z, w) == Cardinality(Instants(z, w)) = 1
InstantOf(z, w) == CHOOSE u \in Instants(z, w) : TRUE
SameValue(s, k, w, l, x) ==
  IF k = l THEN w = x
  ELSE LET p == s.zones[k] q == s.zones[l]
       IN Once(p, w) /\ Once(q, x) /\ InstantOf(p, w) = InstantOf(q, x)

(* Where a value of zone k is in a range.                                    *)
ZoneAt(s, r, k, w) ==
  IF k = r.kind THEN At(s, r, w)
  ELSE IF ~Once(s.zones[k], w) THEN {}
  ELSE LET x == Clock(s.zones[r.kind], InstantOf(s.zones[k], w))
       IN IF Once(s.zones[r.kind], x) THEN At(s, r, x) ELSE {}
ZoneFound(s, r, e) == IF e.x = Alien THEN {} ELSE ZoneAt(s, r, e.zb, e.v)

ZoneEqual(s, p, q) ==
  /\ p.len = q.len
  /\ \A i \in 0..(p.len - 1) : SameValue(s, p.kind, p.start + i * p.step, q.kind, q.start + i * q.step)

(* Before an instant (in the direction of the step) are the clock's times    *)
(* before what the clock shows then, unless it is put forward or back at     *)
(* about that time.                                                          *)
Span(z, k) == IF z.offs[k + 1] > z.offs[k] THEN z.offs[k + 1] - z.offs[k] ELSE z.offs[k] - z.offs[k + 1]
Steady(z, u) == \A k \in DOMAIN z.ats : u < z.ats[k] \/ u >= z.ats[k] + Span(z, k)
Usable(s, e) == e.zb = e.kind \/ (/\ Once(s.zones[e.zb], e.b)
                                  /\ Steady(s.zones[e.kind], InstantOf(s.zones[e.zb], e.b)))
StopClock(s, e) == IF e.zb = e.kind THEN e.b
                   ELSE Clock(s.zones[e.kind], InstantOf(s.zones[e.zb], e.b))
ZoneMade(s, e) == Reg(e.kind, FALSE, e.a, e.d, Steps(e.a, StopClock(s, e), e.d))

ZnApply(s, e) ==
  IF e.err = "" /\ e.op = "factory" THEN [s EXCEPT !.regs = Append(@, ZoneMade(s, e))]
  ELSE RaApply(s, e)

ZnClauses(s, e) ==
  CASE e.op = "in" -> << <<"C18", "in the range exactly if it is among the values",
                           e.err = "" /\ e.res = (ZoneFound(s, s.regs[e.i], e) # {})>> >>
    [] e.op = "count" -> << <<"C18", "counted as often as it is among the values",
                              e.err = "" /\ e.n = Cardinality(ZoneFound(s, s.regs[e.i], e))>> >>
    [] e.op = "index" ->
         LET r == s.regs[e.i]
             is == Limited(r, ZoneFound(s, r, e), e.sa, e.sb)
         IN << <<"C18", "the first index within the limits, or a ValueError",
                 IF is = {} THEN e.err = "ValueError" ELSE e.err = "" /\ e.n = Least(is)>> >>
    [] e.op = "eq" ->
         LET same == ZoneEqual(s, s.regs[e.i], s.regs[e.j])
         IN << <<"C18", "equal exactly if the values are the same in the same order",
                 e.err = "" /\ e.res = same /\ e.ne = ~same>>,
               <<"C18", "equal ranges have equal hashes", e.err = "" /\ (same => e.hash)>> >>
    [] OTHER -> RaClauses(s, e)
ZnFails(s, e) == Failing(ZnClauses(s, e))

ZnTag(s, e) ==
  CASE e.op = "factory" ->
         "factory/" \o Size(ZoneMade(s, e).len) \o (IF e.zb # e.kind THEN "/other zone" ELSE "")
    [] e.op \in {"in", "count", "index"} ->
         e.op \o (IF e.x = Alien THEN "/alien"
                  ELSE (IF ZoneFound(s, s.regs[e.i], e) = {} THEN "/not there" ELSE "/there")
                       \o (IF e.zb = s.regs[e.i].kind THEN "" ELSE "/other zone")
                       \o (IF Once(s.zones[e.zb], e.v) THEN "" ELSE "/not once"))
    [] e.op = "eq" ->
         "eq" \o (IF ZoneEqual(s, s.regs[e.i], s.regs[e.j]) THEN "/equal" ELSE "/different")
              \o (IF s.regs[e.i].kind = s.regs[e.j].kind THEN "" ELSE "/other zone")
    [] OTHER -> RaTag(s, e)
=============================================================================
