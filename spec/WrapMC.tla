------------------------------- MODULE WrapMC -------------------------------
(* Exhaustive exploration of Wrap for small sources.                         *)
EXTENDS MCBase, Wrap
CONSTANTS SrcStreams, MaxN, MaxHist

NoObs == [on |-> FALSE]
Ps(n) == CASE n = "f" -> <<[n |-> "a", k |-> "pk", d |-> FALSE], [n |-> "b", k |-> "pk", d |-> TRUE]>>
           [] n = "r" -> <<[n |-> "a", k |-> "pk", d |-> FALSE], [n |-> "rng", k |-> "ko", d |-> FALSE],
                           [n |-> "x", k |-> "vk", d |-> FALSE]>>
           [] n = "bad" -> <<[n |-> "a", k |-> "pk", d |-> FALSE], [n |-> "z", k |-> "pk", d |-> FALSE]>>
Fns == {"f", "r", "bad"}
Ev(op) == [op |-> op, kind |-> "", names |-> <<>>, items |-> <<>>, how |-> "",
           n |-> 0, out |-> <<>>, shape |-> "", err |-> "", fn |-> "", sig |-> TRUE,
           ok |-> TRUE, params |-> <<>>, bound |-> "", logged |-> TRUE, via |-> "",
           taken |-> <<>>, calls |-> <<>>, mapped |-> <<>>, kept |-> TRUE, raised |-> "", obs |-> NoObs]
SrcLists == {<<a>> : a \in SrcStreams} \cup {<<a, b>> : a, b \in SrcStreams}
News == {[Ev("new") EXCEPT !.kind = IF Len(q) = 1 THEN "one" ELSE "many", !.items = q,
             !.names = IF Len(q) = 1 THEN <<"source">> ELSE <<"a", "b">>, !.fn = f,
             !.params = Ps(f), !.err = er] :
           q \in SrcLists, f \in Fns, er \in {"", "TypeError"}}
Res(fn, args) == fn \o "(" \o Cat(args) \o ")"
MkCall(s, fn, rng, args) == [fn |-> fn, args |-> args, rng |-> rng, res |-> Res(fn, args), err |-> ""]
Calls(s, h, n) ==
  LET from == {p \in [DOMAIN s.items -> 0..2] : \A x \in DOMAIN s.items : p[x] < Len(s.items[x])}
  IN {LET tk == [x \in DOMAIN s.items |-> Cyc(s.items[x], p[x], n)]
          cs == [k \in 1..n |-> MkCall(s, g, r, [x \in DOMAIN tk |-> tk[x][k]])]
      IN [Ev("call") EXCEPT !.how = h, !.n = n, !.taken = tk, !.calls = cs,
             !.out = [k \in 1..n |-> cs[k].res], !.shape = IF h = "one" THEN "one" ELSE "list"] :
      p \in from, g \in {"f", "r"}, r \in {"none", "own", "other"}}
WrEvents(s) ==
  IF s.kind = "none" THEN News
  ELSE Calls(s, "one", 1) \cup UNION {Calls(s, "many", n) : n \in 0..MaxN}
       \cup {[Ev("set_fn") EXCEPT !.fn = f, !.params = Ps(f), !.bound = b, !.err = er,
                  !.via = IF b = "own" THEN "function" ELSE "wrapper"] :
               f \in Fns, b \in {"own", "other"}, er \in {"", "TypeError"}}
       \cup {Ev("reset"), Ev("seed")}
WrCfgs == {[k |-> "any"]}

(* History: outputs since the last start (since a function was set, rejected *)
(* or not, or a reset), and what was set then.                               *)
WrHStart(c) == [outs |-> <<>>, fn |-> "", rej |-> FALSE]
WrHNext(h, s, e) ==
  CASE e.op = "call" -> [h EXCEPT !.outs = @ \o e.out]
    [] e.op \in {"new", "set_fn"} ->
         IF e.err = "" THEN [outs |-> <<>>, fn |-> e.fn, rej |-> FALSE]
         ELSE [h EXCEPT !.outs = <<>>, !.rej = TRUE]
    [] e.op = "reset" -> [h EXCEPT !.outs = <<>>, !.rej = FALSE]
    [] OTHER -> h
HistBound == Len(hist.outs) <= MaxHist
(* C12: however it was requested, output k is the function of the k-th       *)
(* values of all sources.                                                    *)
Mapped == (st.kind # "none" /\ ~hist.rej) =>
  hist.outs = [k \in DOMAIN hist.outs |->
                 Res(hist.fn, [x \in DOMAIN st.items |-> Cyc(st.items[x], k - 1, 1)[1]])]
(* C21: the function is always the one that was last accepted.               *)
Accepted == st.kind # "none" => st.fn = hist.fn /\ st.fn # "bad"
(* There is always a place for the source.                                   *)
Placed == \A x \in DOMAIN st.pos : st.pos[x] # {}
=============================================================================
