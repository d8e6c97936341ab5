------------------------------- MODULE Profile ------------------------------
(* Fields, schemas and emitters based on fields: C13, C14, C15, and parts of *)
(* C01, C16 and C21.                                                         *)
(*                                                                           *)
(* State: the fields ever made (by number), with their name, whether they    *)
(* are hidden, their gate, repeat and data parts and their last value; the   *)
(* emitters based on fields; and the fields of the schema, in order.         *)
(* A value is [t, tok, v, s, raw, str]: none, one value or a list; a token   *)
(* for the whole of it; tokens and strings of its elements; and the string   *)
(* itself if it is one.                                                      *)
EXTENDS Calls

NoneVal == [t |-> "none", tok |-> "NoneType:None", v |-> <<>>, s |-> <<>>,
            raw |-> "", str |-> FALSE]
PfNone == [fields |-> <<>>, ems |-> <<>>, order |-> <<>>]
PfStart(c) == PfNone

Toks(q) == [x \in DOMAIN q |-> q[x].tok]
RECURSIVE JoinFrom(_, _, _)
JoinFrom(q, sep, n) == IF n = 0 THEN ""
                       ELSE IF n = 1 THEN q[1]
                       ELSE JoinFrom(q, sep, n - 1) \o sep \o q[n]
Join(q, sep) == JoinFrom(q, sep, Len(q))

(* ---- Schemas: fields by name, in order.                                   *)
RECURSIVE AddFrom(_, _, _, _)
AddFrom(s, ord, ids, n) ==
  IF n > Len(ids) THEN ord
  ELSE LET f == ids[n]
           same == {x \in DOMAIN ord : s.fields[ord[x]].name = s.fields[f].name}
       IN AddFrom(s, IF same = {} THEN Append(ord, f)
                     ELSE [x \in DOMAIN ord |-> IF x \in same THEN f ELSE ord[x]], ids, n + 1)
AddTo(s, ord, ids) == AddFrom(s, ord, ids, 1)
IsPublic(s, f) == ~s.fields[f].hide
IsHidden(s, f) == s.fields[f].hide
Names(s, ids) == [x \in DOMAIN ids |-> s.fields[ids[x]].name]
PublicIds(s) == LET P(f) == IsPublic(s, f) IN SelectSeq(s.order, P)
HiddenIds(s) == LET P(f) == IsHidden(s, f) IN SelectSeq(s.order, P)
Drop(s, f) == LET P(g) == g # f IN SelectSeq(s.order, P)

(* ---- Emitters based on fields.                                            *)
Single(s, m) == ~m.list /\ ~s.fields[m.of[1]].multi
Prevs(s, m) == [x \in DOMAIN m.of |-> s.fields[m.of[x]].prev]
CopyRight(s, m, val) ==
  IF Single(s, m) THEN val.tok = s.fields[m.of[1]].prev.tok
  ELSE LET ps == Prevs(s, m)
           vs == Flat([x \in DOMAIN ps |-> ps[x].v])
           ss == Flat([x \in DOMAIN ps |-> ps[x].s])
       IN IF m.hassep THEN val.str /\ val.raw = Join(ss, m.sep)
          ELSE IF vs = <<>> THEN val.t = "none"
          ELSE val.t = "list" /\ val.v = vs
ActRight(s, m, a) == /\ a.fn = m.fn
                     /\ a.args = Toks(Prevs(s, m))
                     /\ a.rng = IF WantsRng(m.params) THEN m.bound ELSE "none"
EmRight(s, k, val, acts) ==
  LET m == s.ems[k]
  IN IF m.kind = "copy" THEN CopyRight(s, m, val)
     ELSE /\ \E x \in DOMAIN acts : acts[x].em = k /\ acts[x].res = val.tok
          /\ \A x \in DOMAIN acts : acts[x].em = k => ActRight(s, m, acts[x])
ActFits(s, m, e) ==
  IF ~e.sig THEN e.ok
  ELSE IF Len(m.of) = 1 THEN FitsOne(e.params)
  ELSE FitsNamed(e.params, Names(s, m.of))

(* ---- Calls of a field c: what its parts gave, and the result.             *)
PartOk(p, toks) == ~p.fixed \/ toks = Cyc(p.items, p.pos, Len(toks))
Moved(p, n) == IF p.fixed THEN [p EXCEPT !.pos = (@ + n) % Len(p.items)] ELSE p
Asked(c) == IF Len(c.rep) # 1 THEN -2 ELSE c.rep[1].n
GateRight(c) == Len(c.gate) = 1
ResultRight(c) ==
  /\ Len(c.gate) = 1
  /\ IF ~c.gate[1].yes
     THEN c.rep = <<>> /\ c.data = <<>> /\ c.out.t = "none"
     ELSE /\ Asked(c) >= -1
          /\ IF Asked(c) = -1
             THEN Len(c.data) = 1 /\ c.out.tok = c.data[1].tok
             ELSE Len(c.data) = Asked(c) /\ c.out.t = "list" /\ c.out.v = Toks(c.data)
PartsRight(s, c) ==
  LET f == s.fields[c.f]
  IN PartOk(f.gate, Toks(c.gate)) /\ PartOk(f.rep, Toks(c.rep))
     /\ PartOk(f.data, Toks(c.data))
DerivedRight(s, c) ==
  LET f == s.fields[c.f]
  IN f.data.em = 0 \/ \A x \in DOMAIN c.data : EmRight(s, f.data.em, c.data[x], c.acts)
Others(s, c) == \A g \in DOMAIN s.fields : g # c.f => c.prevs[g] = s.fields[g].prev.tok
IsDerived(s, c) == s.fields[c.f].data.em # 0
FieldClauses(s, c) ==
  << <<"C13", "one value from the gate in each call", GateRight(c)>>,
     <<"C13", "nothing, one value or as many as the repeat emitter says", ResultRight(c)>>,
     <<"C13", "the next values of its emitters", s.fields[c.f].fresh \/ PartsRight(s, c)>>,
     <<"C16", "a reset field starts from the beginning", ~s.fields[c.f].fresh \/ PartsRight(s, c)>>,
     <<"C13", "the last result is the previous value", c.prevs[c.f] = c.out.tok>>,
     <<IF IsDerived(s, c) THEN "C15" ELSE "C13", "other fields stay as they were",
       Others(s, c) /\ c.others = 0 /\ c.still>>,
     <<"C15", "exactly the current values of the source fields", DerivedRight(s, c)>> >>
After(s, c) ==
  [s EXCEPT !.fields[c.f] =
    [@ EXCEPT !.prev = c.out, !.fresh = FALSE, !.gate = Moved(@, Len(c.gate)),
              !.rep = Moved(@, Len(c.rep)), !.data = Moved(@, Len(c.data))]]
RECURSIVE AfterAll(_, _, _)
AfterAll(s, cs, n) == IF n = 0 THEN s ELSE After(AfterAll(s, cs, n - 1), cs[n])

Begun(p) == IF p.fixed THEN [p EXCEPT !.pos = 0] ELSE p
Restart(f) == [f EXCEPT !.prev = NoneVal, !.fresh = TRUE, !.gate = Begun(@),
                        !.rep = Begun(@), !.data = Begun(@)]
RestartAll(s, ids) ==
  [s EXCEPT !.fields = [f \in DOMAIN s.fields |->
      IF f \in Elems(ids) THEN Restart(s.fields[f]) ELSE s.fields[f]]]

NewField(e) == [name |-> e.name, hide |-> e.hide, multi |-> e.multi, gate |-> e.gate,
                rep |-> e.rep, data |-> e.data, prev |-> NoneVal, fresh |-> FALSE]
NewEm(e) == [kind |-> e.kind, of |-> e.of, list |-> e.list, hassep |-> e.hassep,
             sep |-> e.sep, fn |-> e.fn, params |-> e.params, bound |-> "own"]

(* A rejected action may have used up values of its source fields.           *)
Loose(p) == [p EXCEPT !.fixed = FALSE]
Shaken(s, e, ids) ==
  [s EXCEPT !.fields = [f \in DOMAIN s.fields |->
      IF f \in Elems(ids)
      THEN [s.fields[f] EXCEPT !.prev = e.vals[f], !.gate = Loose(@), !.rep = Loose(@),
                               !.data = Loose(@)]
      ELSE s.fields[f]]]
PfApply(s, e) ==
  CASE e.op = "new_field" -> [s EXCEPT !.fields = Append(@, NewField(e))]
    [] e.op = "new_em" -> IF e.err # "" THEN Shaken(s, e, e.of) ELSE [s EXCEPT !.ems = Append(@, NewEm(e))]
    [] e.op = "set_part" ->
         [s EXCEPT !.fields[e.f] =
            CASE e.part = "gate" -> [@ EXCEPT !.gate = e.to]
              [] e.part = "rep" -> [@ EXCEPT !.rep = e.to, !.multi = e.multi]
              [] OTHER -> [@ EXCEPT !.data = e.to]]
    [] e.op = "hide" -> [s EXCEPT !.fields[e.f].hide = e.b]
    [] e.op = "call" -> After(s, e.calls[1])
    [] e.op = "doc" -> AfterAll(s, e.calls, Len(e.calls))
    [] e.op = "reset" -> RestartAll(s, <<e.f>>)
    [] e.op = "reset_all" -> RestartAll(s, s.order)
    [] e.op = "reset_source" -> RestartAll(s, s.ems[e.em].of)
    [] e.op = "set_fields" -> [s EXCEPT !.order = AddTo(s, <<>>, e.ids)]
    [] e.op = "add_fields" -> [s EXCEPT !.order = AddTo(s, @, e.ids)]
    [] e.op = "remove" -> [s EXCEPT !.order = Drop(s, e.f)]
    [] e.op = "set_source" -> [s EXCEPT !.ems[e.em] = [@ EXCEPT !.of = e.of, !.list = e.list]]
    [] e.op = "set_sep" -> [s EXCEPT !.ems[e.em] = [@ EXCEPT !.hassep = e.hassep, !.sep = e.sep]]
    [] e.op = "set_action" ->
         IF e.err # "" THEN Shaken(s, e, s.ems[e.em].of)
         ELSE [s EXCEPT !.ems[e.em] = [@ EXCEPT !.fn = e.fn, !.params = e.params,
                                               !.bound = e.bound]]
    [] OTHER -> s

Same(s, e) == \A f \in DOMAIN s.fields : e.prevs[f] = s.fields[f].prev.tok
EmSingle(e) == e.how \in {"one", "emit"}
DocRight(s, e) ==
  LET pub == PublicIds(s)
  IN /\ e.type = "dict"
     /\ Len(e.doc) = Len(pub)
     /\ \A x \in DOMAIN pub :
          /\ e.doc[x].name = s.fields[pub[x]].name
          /\ \E y \in DOMAIN e.calls : e.calls[y].f = pub[x] /\ e.doc[x].tok = e.calls[y].out.tok
CallsFields(e) == [x \in DOMAIN e.calls |-> e.calls[x].f]
Setup(s, e, m) ==
  LET fits == m.kind = "copy" \/ ActFits(s, m, e)
      right == e.err = (IF fits THEN "" ELSE "TypeError")
  IN << <<"C15", "an action that fits is accepted", ~fits \/ e.err = "">>,
        <<"C21", "an action that does not fit is rejected, one that fits is not", right>>,
        <<"C15", "source fields stay as they were when an action that fits is set",
          ~fits \/ (Same(s, e) /\ e.others = 0 /\ e.still)>> >>
PfClauses(s, e) ==
  CASE e.op = "new_field" -> << <<"C13", "fields can be made", e.err = "">> >>
    [] e.op = "new_em" -> Setup(s, e, NewEm(e))
    [] e.op = "set_action" ->
         Append(Setup(s, e, s.ems[e.em]),
                <<"C21", "a rejected action is not kept", e.err = "" \/ e.kept>>)
    [] e.op = "call" ->
         IF Len(e.calls) # 1 \/ e.err # ""
         THEN << <<"C13", "a field can be called", FALSE>> >>
         ELSE FieldClauses(s, e.calls[1])
    [] e.op = "doc" ->
         << <<"C14", "each field is called once, in order",
              e.err = "" /\ CallsFields(e) = s.order>>,
            <<"C14", "exactly the public fields, in order, with the values just generated",
              e.err = "" /\ DocRight(s, e)>>,
            <<"C14", "a new dictionary each time", e.new>> >>
         \o (IF CallsFields(e) # s.order THEN <<>>
             ELSE Flat([x \in DOMAIN e.calls |->
                          FieldClauses(AfterAll(s, e.calls, x - 1), e.calls[x])]))
    [] e.op = "emit" ->
         << <<"C01", "the number of values requested",
              e.err = "" /\ Len(e.out) = (IF EmSingle(e) THEN 1 ELSE e.n)>>,
            <<"C01", "one bare value, or a list",
              e.err # "" \/ e.shape = (IF EmSingle(e) THEN "one" ELSE "list")>>,
            <<"C15", "exactly the current values of the source fields",
              e.err = "" /\ \A x \in DOMAIN e.out : EmRight(s, e.em, e.out[x], e.acts)>>,
            <<"C15", "other fields stay as they were",
              Same(s, e) /\ e.others = 0 /\ e.still>> >>
    [] e.op = "look" ->
         << <<"C13", "previous values", Same(s, e)>>,
            <<"C13", "fields that can give several values say so",
              \A f \in DOMAIN s.fields : e.multi[f] = s.fields[f].multi>>,
            <<"C14", "public and hidden fields",
              e.public = Names(s, PublicIds(s)) /\ e.hidden = Names(s, HiddenIds(s))>>,
            <<"C14", "groups of fields are object maps", e.maps>>,
            <<"C06", "unknown number of unique values", e.unknown>> >>
    [] e.op \in {"reset", "reset_all", "reset_source"} ->
         LET t == PfApply(s, e)
         IN << <<"C13", "no previous value after a reset",
                 e.err = "" /\ \A f \in DOMAIN t.fields :
                    t.fields[f].prev = NoneVal => e.prevs[f] = NoneVal.tok>>,
               <<"C16", "other fields are not reset",
                 e.err # "" \/ \A f \in DOMAIN t.fields : e.prevs[f] = t.fields[f].prev.tok>> >>
    [] OTHER -> << <<"C14", "changing settings works", e.err = "">>,
                   <<"C13", "only a call or a reset changes the previous value", Same(s, e)>> >>
PfFails(s, e) == Failing(PfClauses(s, e))

CallTag(s, c) ==
  IF Len(c.gate) # 1 THEN "?"
  ELSE (IF IsDerived(s, c) THEN s.ems[s.fields[c.f].data.em].kind ELSE "plain")
       \o (IF ~c.gate[1].yes THEN " closed" ELSE IF Asked(c) = -1 THEN " one"
           ELSE IF Asked(c) = 0 THEN " empty list" ELSE " list")
PfTag(s, e) ==
  e.op \o (CASE e.op = "call" -> "/" \o (IF Len(e.calls) = 1 THEN CallTag(s, e.calls[1]) ELSE "?")
             [] e.op = "doc" ->
                  (IF HiddenIds(s) = <<>> THEN "" ELSE "/hidden")
                  \o (IF \E x \in DOMAIN e.calls : e.calls[x].out.t = "none" THEN "/empty" ELSE "")
                  \o (IF \E x \in DOMAIN e.calls : IsDerived(s, e.calls[x]) THEN "/derived" ELSE "")
             [] e.op \in {"new_em", "set_action"} -> "/" \o e.kind \o "/" \o (IF e.err = "" THEN "ok" ELSE e.err)
             [] e.op = "emit" ->
                  LET m == s.ems[e.em]
                  IN "/" \o m.kind \o (IF m.kind = "copy" /\ m.hassep THEN "/joined" ELSE "")
                     \o (IF Single(s, m) THEN "/single" ELSE IF m.list THEN "/several" ELSE "/multi")
                     \o (IF \A x \in DOMAIN m.of : s.fields[m.of[x]].prev.t = "none" THEN "/none" ELSE "")
             [] OTHER -> "")
=============================================================================
