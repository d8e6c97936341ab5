-------------------------------- MODULE Tree --------------------------------
(* Seeds and resets of composite emitters, fields and schemas: C16.          *)
(*                                                                           *)
(* State: the parts of some wholes, as trees.  Parts with a random generator *)
(* have a seed attribute, the seed that their generator was last started     *)
(* with ("?" if that is not determined) and what they did since: the number  *)
(* k of values drawn, or the sizes of calls.  Other parts have a place in    *)
(* their stream.                                                             *)
(* A value that a generator gave is known as "seed@k" by comparison with     *)
(* generators of known seeds, and as "?" if it belongs to none of them.      *)
(* table holds what parts of a kind gave, for a seed and the calls since.    *)
EXTENDS Common

TrNone == [nodes |-> <<>>, table |-> <<>>]
TrStart(c) == TrNone

NoSeed == "None"
Known(v) == IF v = NoSeed THEN "?" ELSE v
(* only: a random part that looks after its seed by itself.                  *)
Rand(nd) == nd.kind \in {"comp", "probe", "choice", "only"}
HasAttr(nd) == Rand(nd) /\ nd.kind # "only"
RECURSIVE Under(_, _, _)
Under(s, m, n) == m # 0 /\ (m = n \/ Under(s, s.nodes[m].parent, n))
Within(s, m, ids) == \E x \in DOMAIN ids : Under(s, m, ids[x])
(* plain: something of a user's own that cannot even be reset.               *)
(* The one of some wholes that a part belongs to.                            *)
Top(s, m, ids) == CHOOSE n \in Elems(ids) : Under(s, m, n)

Started(nd, v) == [nd EXCEPT !.attr = v, !.seed = Known(v), !.k = 0, !.calls = <<>>]
Seeded(s, ids, v) ==
  [s EXCEPT !.nodes = [m \in DOMAIN s.nodes |->
     LET nd == s.nodes[m]
     IN IF Within(s, m, ids) /\ Rand(nd) THEN Started(nd, v) ELSE nd]]
(* A new whole n resets its parts, with its seed.                            *)
Made(s, n, v) ==
  [s EXCEPT !.nodes = [m \in DOMAIN s.nodes |->
     LET nd == s.nodes[m]
     IN IF Under(s, m, n) /\ (HasAttr(nd) \/ (m = n /\ Rand(nd))) THEN Started(nd, v) ELSE nd]]
Reset(s, ids) ==
  [s EXCEPT !.nodes = [m \in DOMAIN s.nodes |->
     LET nd == s.nodes[m]
     IN IF ~Within(s, m, ids) THEN nd
        ELSE IF nd.kind = "only" THEN Started(nd, nd.attr)
        ELSE IF Rand(nd) THEN Started(nd, s.nodes[Top(s, m, ids)].attr)
        ELSE IF nd.kind = "fixed" THEN [nd EXCEPT !.pos = 0] ELSE nd]]

Node(d) == [parent |-> d.parent, name |-> d.name, kind |-> d.kind, conf |-> d.conf, items |-> d.items,
            attr |-> NoSeed, seed |-> "?", k |-> 0, calls |-> <<>>, pos |-> d.pos]

(* ---- What parts give: d is [node, n, vals], in order; n is -1 for a       *)
(* single value.                                                             *)
Key(nd, n) == <<"part", nd.conf, nd.seed, Append(nd.calls, n)>>
Entries(s, key) == {x \in DOMAIN s.table : s.table[x][1] = key}
Agrees(s, key, vals) == \A x \in Entries(s, key) : s.table[x][2] = vals
Learn(s, key, vals) == IF Entries(s, key) # {} THEN s
                       ELSE [s EXCEPT !.table = Append(@, <<key, vals>>)]
DrawRight(s, d) ==
  LET nd == s.nodes[d.node]
  IN CASE nd.kind \in {"fixed", "plain"} -> d.vals = Cyc(nd.items, nd.pos, Len(d.vals))
       [] nd.kind = "choice" -> nd.seed = "?" \/ Agrees(s, Key(nd, d.n), d.vals)
       [] OTHER -> d.vals = [x \in DOMAIN d.vals |->
                     IF nd.seed = "?" THEN "?" ELSE nd.seed \o "@" \o ToString(nd.k + x - 1)]
AfterDraw(s, d) ==
  LET nd == s.nodes[d.node]
      t == CASE nd.kind \in {"fixed", "plain"} -> [s EXCEPT !.nodes[d.node].pos = (@ + Len(d.vals)) % Len(nd.items)]
             [] nd.kind = "choice" -> [s EXCEPT !.nodes[d.node].calls = Append(@, d.n)]
             [] OTHER -> [s EXCEPT !.nodes[d.node].k = @ + Len(d.vals)]
  IN IF nd.kind = "choice" /\ nd.seed # "?" THEN Learn(t, Key(nd, d.n), d.vals) ELSE t
RECURSIVE AfterDraws(_, _, _)
AfterDraws(s, ds, n) == IF n = 0 THEN s ELSE AfterDraw(AfterDraws(s, ds, n - 1), ds[n])
DrawsRight(s, ds) == \A x \in DOMAIN ds : DrawRight(AfterDraws(s, ds, x - 1), ds[x])

(* The state that everything that the wholes give depends on.                *)
Whole(s, ids) ==
  LET P(m) == Within(s, m, ids)
      ms == SelectSeq([m \in DOMAIN s.nodes |-> m], P)
  IN [x \in DOMAIN ms |->
        LET nd == s.nodes[ms[x]] IN <<ms[x], nd.seed, nd.k, nd.calls, nd.pos>>]
Determined(s, ids) ==
  \A m \in DOMAIN s.nodes : Within(s, m, ids) /\ Rand(s.nodes[m]) => s.nodes[m].seed # "?"
WholeKey(s, e) == <<"whole", e.ids, e.how, e.n, e.ctx, Whole(s, e.ids)>>

TrApply(s, e) ==
  CASE e.op = "new" ->
         Made([s EXCEPT !.nodes = @ \o [x \in DOMAIN e.nodes |-> Node(e.nodes[x])]],
              Len(s.nodes) + 1, e.v)
    [] e.op = "replace" ->
         [s EXCEPT !.nodes = [m \in DOMAIN s.nodes |->
              IF m = e.n THEN [s.nodes[m] EXCEPT !.parent = 0] ELSE s.nodes[m]]
            \o [x \in DOMAIN e.nodes |-> [Node(e.nodes[x]) EXCEPT !.attr = e.v, !.seed = Known(e.v),
                                        !.name = IF x = 1 THEN s.nodes[e.n].name ELSE @]]]
    [] e.op = "seed" -> Seeded(s, e.ids, e.v)
    [] e.op = "reset" -> Reset(s, e.ids)
    [] e.op = "set_attr" -> [s EXCEPT !.nodes[e.ids[1]].attr = e.v]
    [] e.op = "call" ->
         LET t == AfterDraws(s, e.draws, Len(e.draws))
         IN IF Determined(s, e.ids) THEN Learn(t, WholeKey(s, e), e.out) ELSE t
    [] e.op = "twin" ->
         AfterDraws([s EXCEPT !.nodes = Append(@, [Node(e.nodes[1]) EXCEPT !.attr = e.v, !.seed = Known(e.v)])],
                    e.draws, Len(e.draws))
    [] OTHER -> s

(* The parts of a whole, by name.                                            *)
PartsOf(s, n) == {<<s.nodes[m].name, m>> : m \in {x \in DOMAIN s.nodes : s.nodes[x].parent = n}}
Read(q) == {<<q[x].name, q[x].node>> : x \in DOMAIN q}
PartsRead(s, e) == Read(e.parts) = PartsOf(s, e.ids[1]) /\ Read(e.props) \subseteq PartsOf(s, e.ids[1])
ItemsRead(s, e) == ~e.hasitems \/ e.items = s.nodes[e.ids[1]].items

AttrsRight(s, e) ==
  \A m \in DOMAIN s.nodes : e.attrs[m] = IF HasAttr(s.nodes[m]) THEN s.nodes[m].attr ELSE "-"
TrClauses(s, e) ==
  LET t == TrApply(s, e)
  IN << <<"C16", "seeding, resetting and calls work", e.err = "">>,
        <<"C16", "the seed of the whole is that of its parts after seeding and resetting, not before",
          e.op = "twin" \/ AttrsRight(t, e)>> >>
     \o (IF e.op = "call"
         THEN << <<"C16", "every part goes on from where the last seeding or reset put it",
                   DrawsRight(s, e.draws)>>,
                 <<"C16", "the same again after the same seeding or reset",
                   ~Determined(s, e.ids) \/ Agrees(s, WholeKey(s, e), e.out)>> >>
         ELSE IF e.op = "parts"
         THEN << <<"C16", "the parts and items of a whole are the ones it was given",
                   PartsRead(s, e) /\ ItemsRead(s, e)>> >>
         ELSE IF e.op = "twin"
         THEN << <<"C16", "a part that was seeded is like one that was made with this seed",
                   DrawsRight([s EXCEPT !.nodes = Append(@,
                      [Node(e.nodes[1]) EXCEPT !.attr = e.v, !.seed = Known(e.v)])], e.draws)>> >>
         ELSE <<>>)
TrFails(s, e) == Failing(TrClauses(s, e))

TrTag(s, e) ==
  e.op \o (CASE e.op = "call" ->
                  (IF Len(e.ids) > 1 \/ e.how = "doc" THEN "/schema" ELSE "/" \o (IF s.nodes[e.ids[1]].kind = "choice" THEN "choice" ELSE s.nodes[e.ids[1]].conf))
                  \o (IF Determined(s, e.ids) THEN "" ELSE "/unseeded")
             [] e.op \in {"seed", "reset", "set_attr"} ->
                  "/" \o (IF Len(e.ids) = 0 THEN "nothing" ELSE IF Len(e.ids) > 1 THEN "schema"
                          ELSE IF s.nodes[e.ids[1]].parent = 0 THEN "whole" ELSE "part")
             [] OTHER -> "")
=============================================================================
