------------------------------- MODULE Fixed --------------------------------
(* Static, iterative and sequential emitters: C09 and parts of C01, C02,     *)
(* C06, C21 and C22.                                                         *)
(*                                                                           *)
(* State: what kind of emitter it is, its source, the place in the source,   *)
(* and whether it restarts after each call.  An infinite source is given by  *)
(* a prefix that is longer than a trace needs.  The values that are taken    *)
(* from the source are counted for some sources: ahead is how many more have *)
(* been taken than given since the last restart.                             *)
(* Values of some sources tell which iterator of the factory they are from,  *)
(* counted from 1 (passes; nothing for other sources): pass is that of the   *)
(* last value.                                                               *)
EXTENDS Common

FxNone == [kind |-> "none", items |-> <<>>, pos |-> 0, rac |-> FALSE,
           rejected |-> FALSE, swapped |-> FALSE, ahead |-> 0,
           pass |-> 0]
FxStart(c) == FxNone

(* How "next" takes a value from the active iterator, which is public.       *)
Single(e) == e.how \in {"one", "emit", "next"}
Restarts(s, e) == s.rac /\ e.how # "next"
Wanted(e) == IF Single(e) THEN 1 ELSE e.n
Expected(s, e) == Cyc(s.items, s.pos, Wanted(e))

(* src says what the factory gives: an iterator over items ("ok"), one over  *)
(* nothing ("empty"), something else ("notiter"), or for sequential emitters *)
(* an iterator that is not over a sequence ("notseq").                       *)
SrcErr(e) == CASE e.src = "empty" -> {"ValueError"}
               [] e.src = "notiter" -> {"TypeError"}
               [] e.src = "notseq" -> {"ValueError"}
               [] OTHER -> {""}

(* Every time around, the values come from a new iterator, and then all of   *)
(* them from the same one.                                                   *)
Fresh(s, e) ==
  \A x \in DOMAIN e.passes :
    LET was == IF x = 1 THEN s.pass ELSE e.passes[x - 1]
    IN IF (s.pos + x - 1) % Len(s.items) = 0 THEN e.passes[x] > was
       ELSE e.passes[x] = was

AheadAfter(s, e) == IF e.taken < 0 THEN s.ahead
                    ELSE s.ahead + e.taken - Wanted(e)

FxApply(s, e) ==
  CASE e.op = "new" ->
         IF e.err # "" THEN s
         ELSE [kind |-> e.kind, items |-> e.items, pos |-> 0, rac |-> e.b,
               rejected |-> FALSE, swapped |-> FALSE, ahead |-> 0, pass |-> 0]
    [] e.op = "call" ->
         IF e.err # "" THEN s
         ELSE [s EXCEPT !.pos = IF Restarts(s, e) THEN 0
                                ELSE (s.pos + Wanted(e)) % Len(s.items),
                        !.ahead = IF Restarts(s, e) THEN 0 ELSE AheadAfter(s, e),
                        !.pass = IF e.passes = <<>> THEN s.pass ELSE e.passes[Len(e.passes)],
                        !.rejected = FALSE]
    [] e.op = "reset" -> [s EXCEPT !.pos = 0, !.ahead = 0]
    [] e.op = "set_rac" -> [s EXCEPT !.rac = e.b]
    [] e.op = "set_source" ->
         IF e.err # "" THEN [s EXCEPT !.rejected = TRUE]
         ELSE [s EXCEPT !.items = e.items, !.pos = 0, !.swapped = TRUE, !.ahead = 0,
                        !.pass = 0]
    [] e.op = "set_value" -> [s EXCEPT !.items = e.items, !.pos = 0]
    [] OTHER -> s

NUV(t) == IF t.kind = "iter" THEN -1 ELSE Cardinality(Elems(t.items))

FxObs(t, e, rej) ==
  IF ~e.obs.on \/ t.kind = "none" THEN <<>>
  ELSE LET same == t.kind = "iter" \/ e.obs.items = t.items
       IN << <<"C09", "items are those of the current source", same>>,
             <<"C06", "number of unique values", e.obs.nuv = NUV(t)>>,
             <<"C06", "never only unique values", ~e.obs.euv>>,
             <<"C09", "mode of restarting is kept", e.obs.rac = t.rac>>,
             <<IF t.kind = "seq" THEN "C22" ELSE "C09",
               "the factory is the one that was set last", e.obs.fac>>,
             <<"C09", "a factory that was not set gives new iterators over the items", e.obs.own>>,
             <<"C21", "a rejected change leaves everything as it was",
               ~rej \/ (same /\ e.obs.rac = t.rac /\ e.obs.fac)>> >>

FxClauses(s, e) ==
  CASE e.op = "new" ->
         << <<"C21", "unusable sources are rejected, others are not",
              e.err \in SrcErr(e)>> >>
    [] e.op = "call" ->
         << <<"C01", "the number of values requested",
              e.err = "" /\ Len(e.out) = Wanted(e)>>,
            <<"C01", "one bare value, or a list",
              e.err # "" \/ e.shape = (IF Single(e) THEN "one" ELSE "list")>>,
            <<"C09", "the next values of the source",
              e.err = "" /\ e.out = Expected(s, e)>>,
            <<"C09", "each time around, a new iterator of the source", Fresh(s, e)>>,
            <<"C09", "no value is taken before it is given",
              AheadAfter(s, e) <= 0>>,
            <<"C02", "batches continue the stream",
              s.rac \/ (e.err = "" /\ e.out = Expected(s, e))>>,
            <<"C22", "the deprecated way to set a source works",
              ~(s.swapped /\ s.kind = "seq") \/ (e.err = "" /\ e.out = Expected(s, e))>>,
            <<"C21", "goes on working after a rejected change",
              ~s.rejected \/ (e.err = "" /\ e.out = Expected(s, e))>> >>
    [] e.op = "set_source" ->
         << <<"C21", "unusable sources are rejected, others are not",
              e.err \in SrcErr(e)>>,
            <<"C09", "setting a source", e.err \in SrcErr(e)>>,
            <<"C22", "setting the source of a sequential emitter warns and works",
              s.kind # "seq" \/ (e.warned = 1 /\ e.err \in SrcErr(e))>> >>
    [] OTHER -> << <<"C09", "settings and resets work", e.err = "">> >>

FxFails(s, e) ==
  Failing(FxClauses(s, e)
          \o FxObs(FxApply(s, e), e, e.op = "set_source" /\ e.err # "")
          \o << <<"C22", "no warning unless something deprecated is used",
                  e.warned = 0 \/ (e.op = "set_source" /\ s.kind = "seq")>> >>)

FxTag(s, e) ==
  (IF e.op = "new" THEN e.kind ELSE s.kind) \o "/" \o e.op \o
  (IF e.op = "call"
   THEN (IF s.rac THEN "/restarting" ELSE "")
        \o (IF Wanted(e) = 0 THEN "/none"
            ELSE IF s.pos + Wanted(e) < Len(s.items) THEN "/within"
            ELSE IF s.pos + Wanted(e) = Len(s.items) THEN "/to the end"
            ELSE IF s.pos + Wanted(e) <= 2 * Len(s.items) THEN "/across"
            ELSE "/many cycles")
   ELSE IF e.err # "" THEN "/" \o e.src ELSE "")
=============================================================================
