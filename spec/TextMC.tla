------------------------------- MODULE TextMC -------------------------------
(* Exhaustive exploration of Text for small streams.                         *)
EXTENDS MCBase, Text
CONSTANTS Nums, Toks, SepStreams, MaxN, MaxHist

NoObs == [on |-> FALSE]
Part(items) == [fixed |-> TRUE, items |-> items, fin |-> TRUE, word |-> <<>>]
Ev(op) == [op |-> op, kind |-> "", how |-> "", n |-> 0, out |-> <<>>, shape |-> "",
           err |-> "", num |-> <<>>, tok |-> <<>>, sep |-> <<>>, spaces |-> FALSE,
           vocab |-> FALSE, obs |-> NoObs,
           over |-> [num |-> 0, tok |-> 0, sep |-> 0]]
New(k, a, b, c) == [Ev("new") EXCEPT !.kind = k, !.spaces = (k = "text" /\ c = <<>>)]
                     @@ [parts |-> [num |-> Part(a), tok |-> Part(b),
                                    sep |-> IF c = <<>> THEN Part(<<" ">>) ELSE Part(c)]]
News == {New("word", a, b, <<>>) : a \in Nums, b \in Toks}
        \cup {New("text", a, b, c) : a \in Nums, b \in Toks, c \in SepStreams \cup {<<>>}}
(* What the parts give for n outputs, and what is made of it; also wrong     *)
(* ones, which the clauses have to exclude.                                  *)
Draw(s, n) ==
  LET num == Cyc(s.num.items, s.num.pos, n)
  IN [num |-> num, tok |-> Cyc(s.tok.items, s.tok.pos, Sum(num)),
      sep |-> IF s.kind = "text" /\ ~s.spaces
              THEN Cyc(s.sep.items, s.sep.pos, Sum(Seps(num))) ELSE <<>>]
Made(s, d) == IF s.kind = "word" THEN Words(d) ELSE Texts(s, d)
Reversed(q) == [x \in DOMAIN q |-> q[Len(q) + 1 - x]]
Candidates(s, n) ==
  LET d == Draw(s, n)
      more == [d EXCEPT !.tok = Append(@, s.tok.items[1])]
      turned == [d EXCEPT !.tok = Reversed(@)]
      skip == Draw([s EXCEPT !.tok = Moved(@, 1)], n)
  IN {<<d, Made(s, d)>>, <<more, Made(s, d)>>, <<turned, Made(s, turned)>>,
      <<d, Reversed(Made(s, d))>>, <<skip, Made(s, skip)>>, <<d, Tail(Append(Made(s, d), ""))>>}
Call(s, h, n, c) ==
  [Ev("call") EXCEPT !.how = h, !.n = n, !.num = c[1].num, !.tok = c[1].tok,
      !.sep = c[1].sep, !.out = c[2], !.shape = IF h = "one" THEN "one" ELSE "list"]
TxEvents(s) ==
  IF s.kind = "none" THEN News
  ELSE UNION {{Call(s, "many", n, c) : c \in Candidates(s, n)} : n \in 0..MaxN}
       \cup {Call(s, "one", 1, c) : c \in Candidates(s, 1)}
       \cup {Ev("reset")}
TxCfgs == {[k |-> "any"]}

(* History: everything that came out since the last reset.                   *)
TxHStart(c) == [outs |-> <<>>]
TxHNext(h, s, e) == IF e.op = "call" THEN [outs |-> h.outs \o e.out] ELSE [outs |-> <<>>]
HistBound == Len(hist.outs) <= MaxHist

(* C10: read one after the other, the words are the stream of characters,    *)
(* nothing lost, added or reordered, and cut as the lengths say.             *)
Letters == st.kind = "word" =>
  LET num == Cyc(st.num.items, 0, Len(hist.outs))
  IN /\ Cat(hist.outs) = Cat(Cyc(st.tok.items, 0, Sum(num)))
     /\ hist.outs = Made(st, Draw([st EXCEPT !.num = Back(@), !.tok = Back(@)], Len(hist.outs)))
(* C02, C11: requests in any batches give the same texts.                    *)
Batches == st.kind = "text" =>
  hist.outs = Made(st, Draw([st EXCEPT !.num = Back(@), !.tok = Back(@), !.sep = Back(@)],
                            Len(hist.outs)))
(* C06: there are never more different outputs than reported.                *)
Enough == st.kind # "none" => Cardinality(Elems(hist.outs)) <= NUVOf(st)
=============================================================================
