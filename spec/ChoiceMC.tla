------------------------------ MODULE ChoiceMC ------------------------------
(* Exhaustive exploration of Choice for small emitters.                      *)
EXTENDS MCBase, Choice
CONSTANTS ItemLists, WeightLists, MaxN

ChCfgs == {[k |-> "any"]}
NoObs == [on |-> FALSE]
Ev(op) == [op |-> op, how |-> "", n |-> 0, out |-> <<>>, shape |-> "",
           err |-> "", b |-> FALSE, w |-> <<>>, wnone |-> TRUE, cw |-> <<>>,
           cwnone |-> TRUE, items |-> <<>>, notseq |-> FALSE, repl |-> TRUE,
           roac |-> FALSE, obs |-> NoObs]

News == {[Ev("new") EXCEPT !.items = it, !.w = w, !.wnone = w = <<>>,
                           !.cw = cw, !.cwnone = cw = <<>>,
                           !.repl = r, !.roac = ra, !.err = er] :
         it \in ItemLists \cup {<<>>}, w \in WeightLists \cup {<<>>},
         cw \in {Accum(x) : x \in WeightLists} \cup {<<>>},
         r \in BOOLEAN, ra \in BOOLEAN, er \in {"", "ValueError", "TypeError"}}
Outs(s, k) == UNION {[1..j -> Elems(s.items)] : j \in 0..k}
Calls(s) ==
  UNION {{[Ev("call") EXCEPT !.how = h, !.n = n, !.out = o, !.err = er,
                            !.shape = IF er # "" THEN "" ELSE IF h \in {"one", "emit"} THEN "one" ELSE "list"] :
          o \in IF er = "" THEN Outs(s, IF h \in {"one", "emit"} THEN 1 ELSE n) ELSE {<<>>}} :
         h \in {"one", "many"}, n \in 0..MaxN, er \in {"", "ValueError"}}
Sets(s) ==
  {[Ev(o) EXCEPT !.w = w, !.wnone = w = <<>>, !.err = er] :
      o \in {"set_w"}, w \in WeightLists \cup {<<>>}, er \in {"", "ValueError"}}
  \cup
  {[Ev(o) EXCEPT !.w = Accum(w), !.wnone = FALSE, !.err = er] :
      o \in {"set_cw"}, w \in WeightLists, er \in {"", "ValueError"}}
  \cup {[Ev(o) EXCEPT !.b = b] : o \in {"set_repl", "set_roac"}, b \in BOOLEAN}
ChEvents(s) == IF ~s.made THEN News
               ELSE {e \in Calls(s) : e.how = "many" \/ e.n = 1} \cup Sets(s)
                    \cup {Ev(o) : o \in {"reset", "seed", "set_rng_seed"}}

(* History: what was emitted since the last (re)start and under which        *)
(* settings, and the last request.                                           *)
ChHStart(c) == [seen |-> <<>>, last |-> <<>>, mode |-> "", was |-> <<>>]
ChHNext(h, s, e) ==
  LET t == ChApply(s, e) IN
  IF e.op = "call" /\ e.err = ""
  THEN [seen |-> IF s.repl THEN <<>> ELSE h.seen \o e.out,
        last |-> e.out, mode |-> Mode(s, e), was |-> s.w]
  ELSE IF e.op \in {"set_rng_seed"} \/ e.err # "" \/ (e.op = "set_repl" /\ t.repl = s.repl)
  THEN [h EXCEPT !.last = <<>>, !.mode = ""]
  ELSE IF e.op = "set_roac" /\ ~s.repl /\ ~e.b THEN [h EXCEPT !.last = <<>>, !.mode = ""]
  ELSE ChHStart(0)

(* C03: over any sequence of calls since the restart, the emitted items and  *)
(* those that are left are together exactly the items.                       *)
EachAtMostOnce ==
  (st.made /\ ~st.repl) =>
     /\ IsSubBag(hist.seen, Bag(st.items))
     /\ st.left = BagMinus(Bag(st.items), hist.seen)
(* C04 *)
UniquePerCall ==
  (hist.mode = "uniq") => IsSubBag(hist.last, Bag(st.items))
(* C05 *)
SettingsAgree ==
  st.made => /\ (~st.repl => ~st.roac)
             /\ (st.wnone <=> st.w = <<>>)
             /\ (~st.wnone => /\ Len(st.w) = Len(st.items)
                              /\ Deaccum(Accum(st.w)) = st.w)
(* C06 *)
NumbersFit ==
  st.made => /\ NUV(st) <= NUI(st)
             /\ NUI(st) <= Len(st.items)
             /\ (EUV(st) => ~st.repl)
             /\ (st.repl => NUI(st) = Len(st.items))
(* C07: with different items, none with weight 0 comes before one with       *)
(* weight, over all calls since the restart.                                 *)
ZeroWeightLast ==
  (st.made /\ ~st.wnone /\ Distinct(st.items) /\ ~st.repl) =>
     \A x, y \in DOMAIN hist.seen :
        (x < y /\ AllZero(st, hist.seen[x])) => AllZero(st, hist.seen[y])
NeverZeroWeight ==
  (hist.mode = "rep" /\ hist.was # <<>> /\ Distinct(st.items) /\ Len(st.items) > 1) =>
     \A x \in DOMAIN hist.last :
        hist.was[CHOOSE y \in DOMAIN st.items : st.items[y] = hist.last[x]] > 0
(* A failed request uses up nothing (action property).                       *)
FailedIsNoOp ==
  [][ev'.err # "" => [st' EXCEPT !.rejected = st.rejected] = st]_mvars
=============================================================================
