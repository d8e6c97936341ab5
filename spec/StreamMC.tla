------------------------------ MODULE StreamMC ------------------------------
(* Exhaustive exploration of Stream for short streams.                       *)
(*                                                                           *)
(* The history has all streams of a length that explain what was observed:   *)
(* each instance reads the stream from its beginning.                        *)
EXTENDS MCBase, Stream
CONSTANTS Vals, MaxLen, MaxN, MaxInst

StCfgs == {[cap |-> c] : c \in {-1, 0, 1, 3}}
Ev(op) == [op |-> op, i |-> 0, how |-> "", n |-> 0, out |-> <<>>,
           shape |-> "", err |-> ""]
StEvents(s) ==
  (IF Len(s.pos) >= MaxInst THEN {} ELSE {Ev("new"), [Ev("new") EXCEPT !.err = "TypeError"]})
  \cup {[Ev("reset") EXCEPT !.i = k] : k \in DOMAIN s.pos}
  \cup {[Ev("call") EXCEPT !.i = k, !.how = h, !.n = n, !.out = o, !.err = er,
             !.shape = IF er # "" THEN "" ELSE sh] :
          k \in DOMAIN s.pos, h \in {"one", "many"}, n \in 0..MaxN,
          o \in Seqs(Vals, MaxN), er \in {"", "ValueError"}, sh \in {"one", "list"}}

StHStart(c) == [truths |-> [1..MaxLen -> Vals], cap |-> c.cap, got |-> <<>>]
(* Whether a stream t explains an event of an instance that got g values.    *)
Want(e) == IF e.how = "one" THEN 1 ELSE e.n
Explains(h, t, e) ==
  IF h.cap >= 0 /\ h.got[e.i] + Want(e) > h.cap
  THEN e.err = "ValueError"
  ELSE /\ e.err = ""
       /\ e.out = SubSeq(t, h.got[e.i] + 1, h.got[e.i] + Want(e))
       /\ e.shape = (IF e.how = "one" THEN "one" ELSE "list")
StHNext(h, s, e) ==
  CASE e.op = "new" -> [h EXCEPT !.got = Append(@, 0)]
    [] e.op = "reset" -> [h EXCEPT !.got[e.i] = 0]
    [] OTHER -> [h EXCEPT !.truths = {t \in @ : Explains(h, t, e)},
                          !.got[e.i] = IF e.err = "" THEN @ + Want(e) ELSE @]
Inside(e) == e.op # "call" \/ st.pos[e.i] + Want(e) <= MaxLen
StBound == \A k \in DOMAIN st.pos : st.pos[k] <= MaxLen

(* C02: whatever the batches and the order of instances, one stream explains *)
(* it all.                                                                   *)
OneStream == StBound => hist.truths # {}
(* And everything that one stream explains is accepted.                      *)
Exact ==
  StBound => \A e \in StEvents(st) :
     (e.op = "call" /\ Inside(e) /\ (e.err = "" \/ e.out = <<>>)) =>
       ((StFails(st, e) = {}) <=> \E t \in hist.truths : Explains(hist, t, e))
=============================================================================
