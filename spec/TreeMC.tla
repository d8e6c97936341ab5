------------------------------- MODULE TreeMC -------------------------------
(* Exhaustive exploration of Tree for a whole of two levels, and another.    *)
EXTENDS MCBase, Tree
CONSTANTS Vs, Targets, CallIds

D(p, name, kind, conf, items) == [parent |-> p, name |-> name, kind |-> kind, conf |-> conf, items |-> items, pos |-> 0]
(* 1: {2: probe, 3: {4: probe, 5: fixed}}   6: {7: probe, 8: plain, 9: only} *)
Nodes1 == <<D(0, "", "comp", "kids", <<>>), D(1, "a", "probe", "probe", <<>>),
            D(1, "b", "comp", "kids", <<>>), D(3, "a", "probe", "probe", <<>>),
            D(3, "b", "fixed", "seq", <<"str:'a'", "str:'b'">>)>>
Nodes2 == <<D(0, "", "comp", "kids", <<>>), D(6, "a", "probe", "probe", <<>>),
            D(6, "b", "plain", "plain", <<"str:'c'", "str:'d'">>), D(6, "c", "only", "only", <<>>)>>
Ev(op) == [op |-> op, ids |-> <<>>, n |-> 0, nodes |-> <<>>, v |-> NoSeed, how |-> "",
           draws |-> <<>>, out |-> "", ctx |-> "", err |-> "", attrs |-> <<>>,
           parts |-> <<>>, props |-> <<>>, items |-> <<>>, hasitems |-> FALSE]
New(nodes, v) == [Ev("new") EXCEPT !.nodes = nodes, !.v = v]
TrMcStart(c) == TrApply(TrApply(TrNone, New(Nodes1, "a")), New(Nodes2, "None"))
TrCfgs == {[k |-> "any"]}

(* What the parts of a whole give for one value, or something else.          *)
Part(s, m, k) ==
  LET nd == s.nodes[m]
  IN [node |-> m, n |-> -1,
      vals |-> IF nd.kind \in {"fixed", "plain"} THEN Cyc(nd.items, nd.pos, 1)
               ELSE <<IF nd.seed = "?" THEN "?" ELSE nd.seed \o "@" \o ToString(nd.k + k)>>]
RECURSIVE DrawsOf(_, _, _)
DrawsOf(s, m, k) ==
  LET kids == SelectSeq([x \in DOMAIN s.nodes |-> x], LAMBDA x : s.nodes[x].parent = m)
  IN <<Part(s, m, k)>> \o Flat([x \in DOMAIN kids |-> DrawsOf(s, kids[x], k)])
Attrs(s) == [m \in DOMAIN s.nodes |-> IF HasAttr(s.nodes[m]) THEN s.nodes[m].attr ELSE "-"]
With(s, e) == LET t == TrApply(s, e)
              IN {[e EXCEPT !.attrs = Attrs(t)], [e EXCEPT !.attrs = Attrs(s)]}
Out(ds) == Cat([x \in DOMAIN ds |-> ds[x].vals[1] \o " "])
(* Parts that are read back: all of them, or one of them is another.         *)
Kids(s, n) == SelectSeq([x \in DOMAIN s.nodes |-> x], LAMBDA x : s.nodes[x].parent = n)
PartsEvs(s, n) ==
  LET right == [x \in DOMAIN Kids(s, n) |-> [name |-> s.nodes[Kids(s, n)[x]].name, node |-> Kids(s, n)[x]]]
  IN {[Ev("parts") EXCEPT !.ids = <<n>>, !.parts = right, !.attrs = Attrs(s)]}
     \cup {[Ev("parts") EXCEPT !.ids = <<n>>, !.attrs = Attrs(s),
             !.parts = [right EXCEPT ![x].node = IF @ = m THEN 0 ELSE m]] :
              x \in DOMAIN right, m \in {2, 4, 7}}
Call(s, m, k) == LET ds == DrawsOf(s, m, k)
                 IN [Ev("call") EXCEPT !.ids = <<m>>, !.how = "one", !.n = 1, !.draws = ds, !.out = Out(ds)]
TrEvents(s) ==
  UNION ({With(s, [Ev("seed") EXCEPT !.ids = i, !.v = v]) : i \in Targets, v \in Vs}
         \cup {With(s, [Ev("reset") EXCEPT !.ids = i]) : i \in Targets}
         \cup {With(s, [Ev("set_attr") EXCEPT !.ids = i, !.v = v]) : i \in Targets, v \in Vs}
         \cup {{e \in PartsEvs(s, n) : e.parts[1].node = n + 1} : n \in {1, 6}}
         \cup {With(s, Call(s, m, k)) : m \in CallIds, k \in {0, 1}})

(* History: the outputs of each whole since it was last seeded or reset as a *)
(* whole, as long as none of its parts was treated on its own; and all such  *)
(* runs, with the seed.                                                      *)
TrHStart(c) == [run |-> [n \in {1, 6} |-> [on |-> FALSE, v |-> "", outs |-> <<>>]],
                runs |-> {}]
Start1(h, n, v) == [h EXCEPT !.run[n] = [on |-> v # NoSeed, v |-> v, outs |-> <<>>]]
TrHNext(h, s, e) ==
  LET n == e.ids[1]
  IN IF n \notin {1, 6}
     THEN IF e.op = "set_attr" THEN h ELSE [h EXCEPT !.run[1].on = FALSE]
     ELSE CASE e.op = "seed" -> IF n = 1 THEN [h EXCEPT !.run[1].on = FALSE] ELSE Start1(h, n, e.v)
            [] e.op = "reset" -> Start1(h, n, s.nodes[n].attr)
            [] e.op = "call" /\ h.run[n].on ->
                 [h EXCEPT !.run[n].outs = Append(@, e.out),
                           !.runs = @ \cup {<<n, h.run[n].v, Append(h.run[n].outs, e.out)>>}]
            [] OTHER -> h
(* Reading back accepts the parts exactly.  (Which parts there are does not   *)
(* change here, so this is checked where nothing was called yet.)            *)
ReadsExactly ==
  hist.runs = {} => \A n \in {1, 6} : \A e \in PartsEvs(st, n) :
    (TrFails(st, e) = {}) <=>
      {e.parts[x].node : x \in DOMAIN e.parts} = {m \in DOMAIN st.nodes : st.nodes[m].parent = n}
RunBound == Cardinality(hist.runs) <= 3 /\ \A m \in DOMAIN st.nodes : st.nodes[m].k <= 2

(* Seeds reach every random part, and nothing else; resets reach every part. *)
Reaches ==
  [][LET e == ev'
         n == e.ids[1]
     IN \A m \in DOMAIN st.nodes :
          LET a == st.nodes[m]
              b == st'.nodes[m]
              in == Under(st, m, n)
          IN /\ ~in => b = a
             /\ e.op = "seed" /\ in /\ Rand(a) => b.attr = e.v /\ b.k = 0 /\ b.seed = Known(e.v)
             /\ e.op = "seed" /\ ~Rand(a) => b = a
             /\ e.op = "reset" /\ in /\ HasAttr(a) =>
                   b.k = 0 /\ b.seed = Known(st.nodes[n].attr) /\ b.attr = st.nodes[n].attr
             /\ e.op = "reset" /\ in /\ a.kind = "only" =>
                   b.k = 0 /\ b.seed = Known(a.attr) /\ b.attr = a.attr
             /\ e.op = "reset" /\ in /\ a.kind = "fixed" => b.pos = 0
             /\ e.op = "set_attr" => b.seed = a.seed /\ b.k = a.k /\ b.pos = a.pos]_mvars
(* After the same reset, a whole of which every part can be reset gives the  *)
(* same again.                                                               *)
Same == \A x \in hist.runs, y \in hist.runs :
  x[1] = 1 /\ y[1] = 1 /\ x[2] = y[2] /\ Len(x[3]) = Len(y[3]) => x[3] = y[3]
=============================================================================
