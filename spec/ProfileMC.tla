------------------------------ MODULE ProfileMC -----------------------------
(* Exhaustive exploration of Profile: two fields with gates and repeats, and *)
(* a third one that copies, joins or computes from one or both of them.      *)
EXTENDS MCBase, Profile
CONSTANTS Starts, MaxDocs

Quote(t) == "'" \o t \o "'"
One(t) == [t |-> "one", tok |-> t, v |-> <<t>>, s |-> <<t>>, raw |-> t, str |-> TRUE]
Many(ts) == [t |-> "list", tok |-> "list:[" \o Join([x \in DOMAIN ts |-> Quote(ts[x])], ", ") \o "]",
             v |-> ts, s |-> ts, raw |-> "", str |-> FALSE]
Str(q) == [t |-> "one", tok |-> IF q = "" THEN "str:''" ELSE q, v |-> <<IF q = "" THEN "str:''" ELSE q>>,
           s |-> <<q>>, raw |-> q, str |-> TRUE]
Part(items) == [fixed |-> TRUE, items |-> items, pos |-> 0, em |-> 0]
Ref(k) == [fixed |-> FALSE, items |-> <<>>, pos |-> 0, em |-> k]
Fld(n, h, g, r, d) == [name |-> n, hide |-> h, multi |-> \E x \in DOMAIN r : r[x] # "NoneType:None",
                       gate |-> Part(g), rep |-> Part(r), data |-> d, prev |-> NoneVal,
                       fresh |-> FALSE]
Copy(of, l, hs) == [kind |-> "copy", of |-> of, list |-> l, hassep |-> hs,
                    sep |-> IF hs THEN "x" ELSE "", fn |-> "", params |-> <<>>, bound |-> "own"]
P(n, k) == [n |-> n, k |-> k, d |-> FALSE]
Based(of, l) == [Copy(of, l, FALSE) EXCEPT !.kind = "based", !.fn = "fn",
                    !.params = IF Len(of) = 1 THEN <<P("v", "pk")>> ELSE <<P("f", "pk"), P("g", "pk")>>]
T == "bool:True"
F == "bool:False"
N == "NoneType:None"
Ids(n) == [x \in 1..n |-> x]
Start3(g1, r1, r2, m) ==
  [fields |-> <<Fld("f", FALSE, g1, r1, Part(<<"a", "b", "c">>)),
                Fld("g", FALSE, <<T>>, r2, Part(<<"p", "q">>)),
                Fld("x", FALSE, <<T>>, <<N>>, Ref(1))>>,
   ems |-> <<m>>, order |-> <<1, 2, 3>>]
McStart(c) == c

(* A call of field f as it should be, and calls that should not be.          *)
Ev(op) == [op |-> op, err |-> "", calls |-> <<>>, prevs |-> <<>>, vals |-> <<>>, acts |-> <<>>,
           others |-> 0, still |-> TRUE]
RepN(t) == CASE t = N -> -1 [] t = "int:0" -> 0 [] t = "int:1" -> 1 [] t = "int:2" -> 2
ActRes(m, ps) == m.fn \o Cat([x \in DOMAIN ps |-> IF ps[x].t = "none" THEN "None" ELSE Cat(ps[x].s)])
Made(s, k) ==
  LET m == s.ems[k] ps == Prevs(s, m)
      vs == Flat([x \in DOMAIN ps |-> ps[x].v])
  IN IF m.kind = "based" THEN Str(ActRes(m, ps))
     ELSE IF Single(s, m) THEN ps[1]
     ELSE IF m.hassep THEN Str(Join(vs, m.sep))
     ELSE IF vs = <<>> THEN NoneVal ELSE Many(vs)
Acts(s, k) ==
  LET m == s.ems[k]
  IN IF m.kind # "based" THEN <<>>
     ELSE <<[em |-> k, fn |-> m.fn, args |-> Toks(Prevs(s, m)), rng |-> "none",
             res |-> Made(s, k).tok]>>
Gate(t) == [yes |-> t = T, tok |-> t]
CallOf(s, f, opt) ==
  LET fd == s.fields[f]
      g == Cyc(fd.gate.items, fd.gate.pos, 1)[1]
      open == (g = T) # (opt = "gate")
      r == Cyc(fd.rep.items, fd.rep.pos, 1)[1]
      n == RepN(r)
      k == IF n = -1 THEN 1 ELSE n
      skip == IF opt = "skip" THEN 1 ELSE 0
      data == IF fd.data.em # 0
              THEN [x \in 1..k |-> IF opt = "stale" THEN NoneVal ELSE Made(s, fd.data.em)]
              ELSE [x \in 1..k |-> One(Cyc(fd.data.items, fd.data.pos + skip, k)[x])]
      out == IF ~open THEN NoneVal
             ELSE IF n = -1 THEN (IF opt = "list" THEN Many(<<data[1].tok>>) ELSE data[1])
             ELSE IF opt = "one" /\ k > 0 THEN data[1] ELSE Many(Toks(data))
  IN [f |-> f, gate |-> <<Gate(g)>>,
      rep |-> IF open \/ opt = "repeat" THEN <<[n |-> n, tok |-> r]>> ELSE <<>>,
      data |-> IF open THEN data ELSE <<>>,
      acts |-> IF open /\ fd.data.em # 0 THEN Acts(s, fd.data.em) ELSE <<>>,
      out |-> out,
      prevs |-> [x \in DOMAIN s.fields |->
                   IF x = f THEN (IF opt = "forget" THEN N ELSE out.tok) ELSE s.fields[x].prev.tok],
      others |-> IF opt = "pull" THEN 1 ELSE 0, still |-> TRUE]
Opts == {"", "gate", "skip", "stale", "list", "one", "repeat", "forget", "pull"}
RECURSIVE CallsOf(_, _, _, _, _)
(* Calls of some fields, one after the other; number at does it its own way. *)
CallsOf(s, ids, n, at, opt) ==
  IF n > Len(ids) THEN <<>>
  ELSE LET c == CallOf(s, ids[n], IF n = at THEN opt ELSE "")
       IN <<c>> \o CallsOf(After(s, c), ids, n + 1, at, opt)
DocOf(s, cs) ==
  LET pub == SelectSeq(cs, LAMBDA c : ~s.fields[c.f].hide)
  IN [x \in DOMAIN pub |-> [name |-> s.fields[pub[x].f].name, tok |-> pub[x].out.tok]]
Doc(s, ids, at, opt, hid) ==
  LET cs == CallsOf(s, ids, 1, at, opt)
      all == [x \in DOMAIN cs |-> [name |-> s.fields[cs[x].f].name, tok |-> cs[x].out.tok]]
      full == [s EXCEPT !.order = ids]
      end == AfterAll(s, cs, Len(cs))
  IN Ev("doc") @@ [doc |-> IF hid THEN all ELSE DocOf(s, cs), type |-> "dict", new |-> TRUE]
With(e, cs, s) == [e EXCEPT !.calls = cs,
                     !.prevs = [x \in DOMAIN s.fields |-> AfterAll(s, cs, Len(cs)).fields[x].prev.tok]]
Docs(s) ==
  {With(Doc(s, s.order, at, o, FALSE), CallsOf(s, s.order, 1, at, o), s) :
     at \in 1..Len(s.order), o \in Opts}
  \cup {With(Doc(s, ids, 0, "", h), CallsOf(s, ids, 1, 0, ""), s) :
     ids \in {s.order, Append(s.order, 1), Tail(Append(s.order, 2)), PublicIds(s)}, h \in {TRUE, FALSE}}
Still(s, e) == [e EXCEPT !.prevs = Toks([x \in DOMAIN s.fields |-> s.fields[x].prev])]
Resets(s) ==
  {Still(PfApply(s, e), e) : e \in {Ev("reset") @@ [f |-> f] : f \in DOMAIN s.fields} \cup {Ev("reset_all")}}
Changes(s) ==
  {Still(s, Ev("hide") @@ [f |-> f, b |-> ~s.fields[f].hide]) : f \in {1, 3}}
  \cup {Still(s, Ev("remove") @@ [f |-> f]) : f \in Elems(s.order) \cap {1, 2}}
  \cup {Still(s, Ev("add_fields") @@ [ids |-> <<f>>]) : f \in {1, 2}}
  \cup {Still(s, Ev("set_fields") @@ [ids |-> <<3, 1>>])}
CallEvents(s) ==
  {LET cs == CallsOf(s, <<f>>, 1, 1, o) IN With(Ev("call") @@ [f |-> f], cs, s) :
     f \in DOMAIN s.fields, o \in Opts}
McEvents(s) == Docs(s) \cup CallEvents(s) \cup Resets(s) \cup Changes(s)

(* History: the data of field 1 and the number of its calls since its last   *)
(* start, and the last document.                                             *)
McHStart(c) == [n |-> 0, data |-> <<>>, doc |-> <<>>, keys |-> <<>>, calls |-> 0, last |-> <<>>]
DataOf(cs, f) == Flat([x \in DOMAIN cs |-> IF cs[x].f = f THEN Toks(cs[x].data) ELSE <<>>])
McHNext(h, s, e) ==
  LET h1 == [h EXCEPT !.n = @ + 1,
                      !.data = @ \o DataOf(e.calls, 1),
                      !.calls = @ + Len(SelectSeq(e.calls, LAMBDA c : c.f = 1))]
  IN CASE e.op = "doc" -> [h1 EXCEPT !.doc = e.doc, !.keys = Names(s, PublicIds(s)),
                                     !.last = [x \in DOMAIN e.calls |-> e.calls[x].f]]
       [] e.op = "reset_all" /\ 1 \in Elems(s.order) -> [h1 EXCEPT !.data = <<>>, !.calls = 0]
       [] e.op = "reset" /\ e.f = 1 -> [h1 EXCEPT !.data = <<>>, !.calls = 0]
       [] OTHER -> h1
NoH(c) == 0
NoHN(h, s, e) == 0
HistBound == hist.n <= MaxDocs

(* C13: the data of a field are its stream in order; how much of it was      *)
(* taken is decided by the gate and the repeat emitter alone.                *)
RECURSIVE Wanted(_, _, _)
Wanted(f, n, r) ==          \* after n calls, of which r were let through
  IF n = 0 THEN 0
  ELSE LET g == Cyc(f.gate.items, hist.calls - n, 1)[1]
           w == RepN(Cyc(f.rep.items, r, 1)[1])
       IN IF g # T THEN Wanted(f, n - 1, r)
          ELSE (IF w = -1 THEN 1 ELSE w) + Wanted(f, n - 1, r + 1)
InOrder == LET f == st.fields[1]
           IN /\ hist.data = Cyc(f.data.items, 0, Len(hist.data))
              /\ Len(hist.data) = Wanted(f, hist.calls, 0)
(* C14: the keys of a document are the public fields, in order.              *)
Keys == [x \in DOMAIN hist.doc |-> hist.doc[x].name] = hist.keys
(* C15: right after a document in which the third field came after its       *)
(* sources, its value is that of the sources in the same document.           *)
Matches ==
  (ev.op = "doc" /\ st.fields[3].prev.t # "none" /\ st.order = <<1, 2, 3>>) =>
     st.fields[3].prev.tok = Made(st, 1).tok
(* Fields that copy a single value give exactly it, also if there is none.   *)
SameValue ==
  (ev.op = "doc" /\ st.order = <<1, 2, 3>> /\ st.ems[1].kind = "copy" /\ Single(st, st.ems[1])) =>
     st.fields[3].prev.tok = st.fields[1].prev.tok
=============================================================================
