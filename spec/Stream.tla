------------------------------- MODULE Stream -------------------------------
(* Emitters whose output is a stream (C02, and parts of C01).                *)
(*                                                                           *)
(* The stream itself is not specified: it is an unknown sequence that the    *)
(* first instance to get there reveals.  State: the known part of it, and    *)
(* for each instance (all are created alike) its place.  Whatever the        *)
(* batches, every instance has to give this one stream from its place on.    *)
EXTENDS Common

StStart(c) == [known |-> <<>>, pos |-> <<>>, cap |-> c.cap]

StSingle(e) == e.how \in {"one", "emit"}
StWanted(e) == IF StSingle(e) THEN 1 ELSE e.n
(* A finite stream (choice without replacement) has cap values; otherwise    *)
(* cap is -1.                                                                *)
StEnough(s, e) == s.cap < 0 \/ s.pos[e.i] + StWanted(e) <= s.cap

StApply(s, e) ==
  CASE e.op = "new" -> [s EXCEPT !.pos = Append(@, 0)]
    [] e.op = "reset" -> [s EXCEPT !.pos[e.i] = 0]
    [] e.op = "call" ->
         IF e.err # "" THEN s
         ELSE LET end == s.pos[e.i] + Len(e.out)
              IN [s EXCEPT !.pos[e.i] = end,
                           !.known = IF end <= Len(@) THEN @
                                     ELSE SubSeq(@, 1, s.pos[e.i]) \o e.out]
    [] OTHER -> s

Agrees(s, e) ==
  \A x \in DOMAIN e.out :
     s.pos[e.i] + x <= Len(s.known) => e.out[x] = s.known[s.pos[e.i] + x]

StClauses(s, e) ==
  CASE e.op = "call" ->
         << <<"C01", "the number of values requested",
              IF StEnough(s, e) THEN e.err = "" /\ Len(e.out) = StWanted(e)
              ELSE e.err = "ValueError">>,
            <<"C01", "one bare value, or a list",
              e.err # "" \/ e.shape = (IF StSingle(e) THEN "one" ELSE "list")>>,
            <<"C02", "the same values whatever the batches",
              IF StEnough(s, e) THEN e.err = "" /\ Len(e.out) = StWanted(e) /\ Agrees(s, e)
              ELSE e.err = "ValueError">> >>
    [] OTHER -> << <<"C02", "creating and resetting work", e.err = "">> >>
StFails(s, e) == Failing(StClauses(s, e))

StTag(s, e) ==
  e.op \o (IF e.op # "call" THEN ""
           ELSE IF e.err # "" THEN "/" \o e.err
           ELSE IF StWanted(e) = 0 THEN "/none"
           ELSE IF s.pos[e.i] + StWanted(e) <= Len(s.known) THEN "/known"
           ELSE IF s.pos[e.i] < Len(s.known) THEN "/partly known"
           ELSE "/new")
=============================================================================
