-------------------------------- MODULE Group -------------------------------
(* Groups of objects, as lists and as ordered dictionaries: C20.             *)
(*                                                                           *)
(* State: the objects, each with the values of its attributes ("-" if it     *)
(* does not have one), what happens when an attribute is set, and what       *)
(* happens when a method is called; and the groups.  A member of a group is  *)
(* the number of an object, or 0 for None.  A group that is like a           *)
(* dictionary has a key for every member; keys of lists are empty strings.   *)
EXTENDS Common

GrStart(c) == [objs |-> c.objs, groups |-> <<>>]
Absent == "-"

(* ---- Lists as in Python.  Positions are from 0; an optional number is     *)
(* <<>> or <<number>>.                                                       *)
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
StepOf(c) == IF c = <<>> THEN 1 ELSE c[1]
Bound(a, n, k, default) ==
  IF a = <<>> THEN default
  ELSE LET x == IF a[1] < 0 THEN a[1] + n ELSE a[1]
       IN IF k > 0 THEN Clip(x, 0, n) ELSE Clip(x, -1, n - 1)
From(a, n, k) == Bound(a, n, k, IF k > 0 THEN 0 ELSE n - 1)
To(b, n, k) == Bound(b, n, k, IF k > 0 THEN n ELSE -1)
RECURSIVE Places(_, _, _)
Places(from, to, k) ==
  IF (k > 0 /\ from >= to) \/ (k < 0 /\ from <= to) THEN <<>>
  ELSE <<from>> \o Places(from + k, to, k)
SlicePlaces(n, a, b, c) == Places(From(a, n, StepOf(c)), To(b, n, StepOf(c)), StepOf(c))
At(L, ps) == [x \in DOMAIN ps |-> L[ps[x] + 1]]
Pos(n, i) == IF i < 0 THEN i + n ELSE i
Inside(n, i) == 0 <= Pos(n, i) /\ Pos(n, i) < n
InsertAt(L, i, o) == LET p == Clip(Pos(Len(L), i), 0, Len(L))
                     IN SubSeq(L, 1, p) \o <<o>> \o SubSeq(L, p + 1, Len(L))
DelAt(L, i) == LET p == Pos(Len(L), i) IN SubSeq(L, 1, p) \o SubSeq(L, p + 2, Len(L))
Without(L, S) == LET keep == {x \in DOMAIN L : x - 1 \notin S}
                     nth == [k \in 1..Cardinality(keep) |->
                               CHOOSE x \in keep : Cardinality({y \in keep : y <= x}) = k]
                 IN [k \in DOMAIN nth |-> L[nth[k]]]
Where(L, o) == {x \in DOMAIN L : L[x] = o}
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Rev(L) == [x \in DOMAIN L |-> L[Len(L) + 1 - x]]
Times(L, n) == Flat(Rep(L, Max(n, 0)))
RECURSIVE SortedFrom(_)
SortedFrom(L) ==
  IF L = <<>> THEN <<>>
  ELSE LET m == CHOOSE x \in DOMAIN L : \A y \in DOMAIN L :
                   L[x] < L[y] \/ (L[x] = L[y] /\ x <= y)
       IN <<L[m]>> \o SortedFrom(DelAt(L, m - 1))
(* Replacing a slice: by any number of members if the step is 1.             *)
SetSlice(L, a, b, c, new) ==
  LET n == Len(L)
      f == From(a, n, 1)
      t == Max(f, To(b, n, 1))
      ps == SlicePlaces(n, a, b, c)
  IN IF StepOf(c) = 1 THEN SubSeq(L, 1, f) \o new \o SubSeq(L, t + 1, n)
     ELSE [x \in DOMAIN L |-> IF \E k \in DOMAIN ps : ps[k] = x - 1
                              THEN new[CHOOSE k \in DOMAIN ps : ps[k] = x - 1] ELSE L[x]]
SetSliceErr(L, a, b, c, new) ==
  IF c = <<0>> THEN "ValueError"
  ELSE IF StepOf(c) # 1 /\ Len(SlicePlaces(Len(L), a, b, c)) # Len(new) THEN "ValueError"
  ELSE ""

(* ---- Ordered dictionaries.                                                *)
List(m) == [like |-> "list", keys |-> Rep("", Len(m)), mem |-> m]
Map(k, m) == [like |-> "map", keys |-> k, mem |-> m]
Has(g, k) == Where(g.keys, k) # {}
PosKey(g, k) == First(Where(g.keys, k))
Put(g, k, o) == IF Has(g, k) THEN [g EXCEPT !.mem[PosKey(g, k)] = o]
                ELSE Map(Append(g.keys, k), Append(g.mem, o))
RECURSIVE PutAll(_, _, _)
PutAll(g, ks, os) == IF ks = <<>> THEN g
                     ELSE PutAll(Put(g, ks[1], os[1]), Tail(ks), Tail(os))
Drop(g, k) == LET p == PosKey(g, k) - 1 IN Map(DelAt(g.keys, p), DelAt(g.mem, p))
EmptyMap == Map(<<>>, <<>>)

(* ---- Setting an attribute and running a method, member by member.         *)
(* What became of the objects and what was called, until an error.           *)
Members(g) == g.mem
RECURSIVE SetOn(_, _, _, _)
SetOn(objs, ms, name, val) ==
  IF ms = <<>> THEN [objs |-> objs, err |-> ""]
  ELSE IF ms[1] = 0 THEN SetOn(objs, Tail(ms), name, val)
  ELSE LET o == objs[ms[1]] IN
       CASE o.attrs[name] = Absent -> SetOn(objs, Tail(ms), name, val)
         [] o.setting[name] # "" -> [objs |-> objs, err |-> o.setting[name]]
         [] OTHER -> SetOn([objs EXCEPT ![ms[1]].attrs[name] = val], Tail(ms), name, val)
(* A method is absent (Absent), works (""), raises an error when called, is  *)
(* something that cannot be called ("data"), or takes no arguments ("none"). *)
RECURSIVE RunOn(_, _, _, _, _)
RunOn(objs, ms, name, args, calls) ==
  IF ms = <<>> THEN [calls |-> calls, err |-> ""]
  ELSE IF ms[1] = 0 THEN RunOn(objs, Tail(ms), name, args, calls)
  ELSE LET m == objs[ms[1]].meths[name] IN
       CASE m = Absent -> RunOn(objs, Tail(ms), name, args, calls)
         [] m = "data" -> [calls |-> calls, err |-> "TypeError"]
         [] m = "none" /\ args # "" -> [calls |-> calls, err |-> "TypeError"]
         [] m \in {"", "none"} ->
              RunOn(objs, Tail(ms), name, args, Append(calls, <<ms[1], name, args>>))
         [] OTHER -> [calls |-> Append(calls, <<ms[1], name, args>>), err |-> m]

(* ---- The operations: what an operation gives, as [groups, objs, err, out, *)
(* calls].                                                                   *)
ToS(n) == ToString(n)
Names(L) == [x \in DOMAIN L |-> ToS(L[x])]
Res(s) == [groups |-> s.groups, objs |-> s.objs, err |-> "", out |-> <<>>, calls |-> <<>>]
Change(s, e, g) == [Res(s) EXCEPT !.groups[e.g] = g]
Bad(s, err) == [Res(s) EXCEPT !.err = err]
More(s, g) == [Res(s) EXCEPT !.groups = Append(s.groups, g)]
Tell(s, out) == [Res(s) EXCEPT !.out = out]

ListOp(s, e) ==
  LET g == s.groups[e.g]
      L == g.mem
      n == Len(L)
      ch(M) == Change(s, e, List(M))
      at == Where(L, e.o)
  IN CASE e.op = "append" -> ch(Append(L, e.o))
       [] e.op = "insert" -> ch(InsertAt(L, e.i, e.o))
       [] e.op \in {"extend", "iadd"} -> ch(L \o e.mem)
       [] e.op = "set" -> IF Inside(n, e.i) THEN ch([L EXCEPT ![Pos(n, e.i) + 1] = e.o])
                          ELSE Bad(s, "IndexError")
       [] e.op = "del" -> IF Inside(n, e.i) THEN ch(DelAt(L, e.i)) ELSE Bad(s, "IndexError")
       [] e.op = "pop" -> IF Inside(n, e.i)
                          THEN [ch(DelAt(L, e.i)) EXCEPT !.out = <<ToS(L[Pos(n, e.i) + 1])>>]
                          ELSE Bad(s, "IndexError")
       [] e.op = "remove" -> IF at # {} THEN ch(DelAt(L, First(at) - 1)) ELSE Bad(s, "ValueError")
       [] e.op = "clear" -> ch(<<>>)
       [] e.op = "reverse" -> ch(Rev(L))
       [] e.op = "sort" -> ch(IF e.flag THEN SortedFrom(L) ELSE Rev(SortedFrom(L)))
       [] e.op = "imul" -> ch(Times(L, e.i))
       [] e.op = "setslice" -> IF SetSliceErr(L, e.a, e.b, e.c, e.mem) # ""
                               THEN Bad(s, SetSliceErr(L, e.a, e.b, e.c, e.mem))
                               ELSE ch(SetSlice(L, e.a, e.b, e.c, e.mem))
       [] e.op = "delslice" -> IF e.c = <<0>> THEN Bad(s, "ValueError")
                               ELSE ch(Without(L, Elems(SlicePlaces(n, e.a, e.b, e.c))))
       [] e.op = "slice" -> IF e.c = <<0>> THEN Bad(s, "ValueError")
                            ELSE More(s, List(At(L, SlicePlaces(n, e.a, e.b, e.c))))
       [] e.op = "add" -> More(s, List(L \o e.mem))
       [] e.op = "addgroup" -> More(s, List(L \o s.groups[e.i].mem))
       [] e.op = "radd" -> More(s, List(e.mem \o L))
       [] e.op = "mul" -> More(s, List(Times(L, e.i)))
       [] e.op = "copy" -> More(s, g)
       [] e.op = "get" -> IF Inside(n, e.i) THEN Tell(s, <<ToS(L[Pos(n, e.i) + 1])>>)
                          ELSE Bad(s, "IndexError")
       [] e.op = "index" -> IF at # {} THEN Tell(s, <<ToS(First(at) - 1)>>) ELSE Bad(s, "ValueError")
       [] e.op = "count" -> Tell(s, <<ToS(Cardinality(at))>>)
       [] e.op = "contains" -> Tell(s, <<ToS(at # {})>>)
       [] e.op = "eq" -> Tell(s, <<ToS(L = e.mem)>>)
       [] e.op = "eqgroup" -> Tell(s, <<ToS(L = s.groups[e.i].mem)>>)
       [] e.op = "rev" -> Tell(s, Names(Rev(L)))

MapOp(s, e) ==
  LET g == s.groups[e.g]
      n == Len(g.mem)
      ch(h) == Change(s, e, h)
      has == Has(g, e.key)
  IN CASE e.op = "set" -> ch(Put(g, e.key, e.o))
       [] e.op = "del" -> IF has THEN ch(Drop(g, e.key)) ELSE Bad(s, "KeyError")
       [] e.op = "pop" -> IF has THEN [ch(Drop(g, e.key)) EXCEPT !.out = <<ToS(g.mem[PosKey(g, e.key)])>>]
                          ELSE IF e.flag THEN Tell(s, <<ToS(e.o)>>) ELSE Bad(s, "KeyError")
       [] e.op = "popitem" ->
            IF n = 0 THEN Bad(s, "KeyError")
            ELSE LET p == IF e.flag THEN n ELSE 1
                 IN [ch(Drop(g, g.keys[p])) EXCEPT !.out = <<g.keys[p], ToS(g.mem[p])>>]
       [] e.op = "setdefault" -> IF has THEN Tell(s, <<ToS(g.mem[PosKey(g, e.key)])>>)
                                 ELSE [ch(Put(g, e.key, e.o)) EXCEPT !.out = <<ToS(e.o)>>]
       [] e.op \in {"update", "ior"} -> ch(PutAll(g, e.keys, e.mem))
       [] e.op = "move" -> IF ~has THEN Bad(s, "KeyError")
                           ELSE LET o == g.mem[PosKey(g, e.key)] d == Drop(g, e.key)
                                IN ch(IF e.flag THEN Map(Append(d.keys, e.key), Append(d.mem, o))
                                      ELSE Map(<<e.key>> \o d.keys, <<o>> \o d.mem))
       [] e.op = "clear" -> ch(EmptyMap)
       [] e.op = "copy" -> More(s, g)
       [] e.op = "or" -> More(s, PutAll(g, e.keys, e.mem))
       [] e.op = "fromkeys" -> More(s, PutAll(EmptyMap, e.keys, Rep(e.o, Len(e.keys))))
       [] e.op = "get" -> IF has THEN Tell(s, <<ToS(g.mem[PosKey(g, e.key)])>>) ELSE Bad(s, "KeyError")
       [] e.op = "contains" -> Tell(s, <<ToS(has)>>)
       [] e.op = "rev" -> Tell(s, Rev(g.keys))
       [] e.op = "eqgroup" -> Tell(s, <<ToS(g = s.groups[e.i])>>)

GrRes(s, e) ==
  CASE e.op = "new" -> More(s, IF e.like = "list" THEN List(e.mem) ELSE PutAll(EmptyMap, e.keys, e.mem))
    [] e.op = "setattr" ->
         LET x == SetOn(s.objs, Members(s.groups[e.g]), e.name, e.val)
         IN [Res(s) EXCEPT !.objs = x.objs, !.err = x.err]
    [] e.op = "do" ->
         LET x == RunOn(s.objs, Members(s.groups[e.g]), e.name, e.val, <<>>)
         IN [Res(s) EXCEPT !.calls = x.calls, !.err = x.err]
    [] e.op = "look" -> Res(s)
    \* An object gets or loses an attribute by itself.
    [] e.op = "give" -> [Res(s) EXCEPT !.objs[e.o].attrs[e.name] = e.val]
    [] s.groups[e.g].like = "list" -> ListOp(s, e)
    [] OTHER -> MapOp(s, e)
GrApply(s, e) == LET r == GrRes(s, e) IN [groups |-> r.groups, objs |-> r.objs]

Attrs(objs) == [x \in DOMAIN objs |-> objs[x].attrs]
Shown(g) == [like |-> g.like, keys |-> g.keys, mem |-> g.mem, len |-> Len(g.mem)]
GrClauses(s, e) ==
  LET r == GrRes(s, e) IN
  <<<<"C20", CASE e.op = "setattr" -> "setting an attribute has the errors of the members only"
               [] e.op = "do" -> "running a method has the errors of the members only"
               [] OTHER -> "errors are those of a list or dictionary", e.err = r.err>>,
    <<"C20", CASE e.op = "do" -> "the method runs once, with the arguments and in order, on each member that has it"
               [] OTHER -> "no method runs", e.calls = r.calls>>,
    <<"C20", "results are those of a list or dictionary", e.err # r.err \/ e.out = r.out>>>>
  \o (IF ~e.obs.on THEN <<>>
      ELSE <<<<"C20", CASE e.op = "setattr" -> "the attribute is set on each member that has it, and on nothing else"
                       [] OTHER -> "attributes stay as they are", e.obs.attrs = Attrs(r.objs)>>,
             <<"C20", "groups have the members of a list or dictionary",
               e.obs.groups = [x \in DOMAIN r.groups |-> Shown(r.groups[x])]>>>>)
GrFails(s, e) == Failing(GrClauses(s, e))
GrTag(s, e) ==
  LET r == GrRes(s, e)
      like == IF e.op = "new" THEN e.like ELSE IF e.op \in {"look", "give"} THEN "any" ELSE s.groups[e.g].like
      ms == IF e.op \in {"setattr", "do"} THEN Members(s.groups[e.g]) ELSE <<>>
  IN like \o "/" \o e.op \o (IF r.err # "" THEN "/" \o r.err ELSE "")
     \o (IF e.op = "do" THEN (IF Where(ms, 0) # {} THEN "/None" ELSE "")
            \o (IF \E x \in DOMAIN ms : ms[x] # 0 /\ s.objs[ms[x]].meths[e.name] = Absent
                THEN "/some without" ELSE "")
            \o (IF Len(ms) > Cardinality(Elems(ms)) THEN "/some twice" ELSE "")
         ELSE IF e.op = "setattr" THEN (IF Where(ms, 0) # {} THEN "/None" ELSE "")
            \o (IF \E x \in DOMAIN ms : ms[x] # 0 /\ s.objs[ms[x]].attrs[e.name] = Absent
                THEN "/some without" ELSE "")
         ELSE IF e.op \in {"slice", "setslice", "delslice"} /\ StepOf(e.c) < 0 THEN "/backwards" ELSE "")
=============================================================================
