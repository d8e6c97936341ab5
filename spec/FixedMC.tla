------------------------------ MODULE FixedMC -------------------------------
(* Exhaustive exploration of Fixed for small sources.                        *)
EXTENDS MCBase, Fixed
CONSTANTS Vals, MaxLen, MaxN, MaxHist

FxCfgs == {[k |-> "any"]}
NoObs == [on |-> FALSE]
Ev(op) == [op |-> op, kind |-> "", how |-> "", n |-> 0, out |-> <<>>,
           shape |-> "", err |-> "", b |-> FALSE, items |-> <<>>, src |-> "",
           warned |-> 0, taken |-> -1, passes |-> <<>>, obs |-> NoObs]
Sources == {q \in Seqs(Vals, MaxLen) : Len(q) > 0}
Bad(kind) == IF kind = "iter" THEN {<<"empty", "ValueError">>, <<"notiter", "TypeError">>}
             ELSE {<<"empty", "ValueError">>}
NewsOf(k) ==
   {[Ev("new") EXCEPT !.kind = k, !.items = q, !.src = "ok", !.b = b] :
      q \in Sources, b \in BOOLEAN}
   \cup {[Ev("new") EXCEPT !.kind = k, !.src = x[1], !.err = x[2], !.b = b] :
      x \in Bad(k), b \in BOOLEAN}
News == NewsOf("iter") \cup NewsOf("seq")
   \cup {[Ev("new") EXCEPT !.kind = "static", !.src = "ok", !.items = <<v>>] : v \in Vals}
Calls == {[Ev("call") EXCEPT !.how = h, !.n = n, !.out = o,
              !.shape = IF h = "many" THEN "list" ELSE "one"] :
            h \in {"one", "many", "next"}, n \in 0..MaxN, o \in Seqs(Vals, MaxN)}
Sets(s) ==
   (IF s.kind \in {"iter", "seq"}
    THEN {[Ev("set_rac") EXCEPT !.b = b] : b \in BOOLEAN}
         \cup {[Ev("set_source") EXCEPT !.items = q, !.src = "ok",
                    !.warned = IF s.kind = "seq" THEN 1 ELSE 0] : q \in Sources}
         \cup {[Ev("set_source") EXCEPT !.src = x[1], !.err = x[2],
                    !.warned = IF s.kind = "seq" THEN 1 ELSE 0] :
               x \in Bad(s.kind) \cup IF s.kind = "seq" THEN {<<"notseq", "ValueError">>} ELSE {}}
    ELSE {[Ev("set_value") EXCEPT !.items = <<v>>] : v \in Vals})
FxEvents(s) == IF s.kind = "none" THEN News
               ELSE {e \in Calls : \/ e.how = "many"
                                   \/ e.n = 1 /\ (e.how = "one" \/ s.kind # "static")}
                    \cup Sets(s) \cup {Ev("reset")}

(* History: everything emitted since the last restart.                       *)
FxHStart(c) == [seen |-> <<>>]
FxHNext(h, s, e) ==
  IF e.op = "call" THEN [seen |-> IF Restarts(s, e) THEN <<>> ELSE h.seen \o e.out]
  ELSE IF e.op = "set_rac" \/ e.err # "" THEN h
  ELSE [seen |-> <<>>]

HistBound == Len(hist.seen) <= MaxHist
(* C09, C02: however it was requested, what was emitted since the last       *)
(* restart is the source, again and again, in order.                         *)
InOrder == st.kind # "none" =>
             hist.seen = Cyc(st.items, 0, Len(hist.seen))
InPlace == st.kind # "none" => (st.pos = Len(hist.seen) % Len(st.items))
(* With restarting after each call, no call depends on the calls before it.  *)
RestartsAfterCall == [][(ev'.op = "call" /\ Restarts(st, ev')) => st'.pos = 0]_mvars
FailedIsNoOp == [][ev'.err # "" => [st' EXCEPT !.rejected = st.rejected] = st]_mvars
=============================================================================
