------------------------------- MODULE MemoMC -------------------------------
(* Exhaustive exploration of Memo.                                           *)
(*                                                                           *)
(* The history is the plain log of everything that was done with each        *)
(* instance, and the facts learned from it: what an instance gave, and all   *)
(* that may have an influence on it, which is looked up in the log.          *)
EXTENDS MCBase, Memo
CONSTANTS Seeds, Sets, Toks, Outs, MaxInst

MeCfgs == {[k |-> "any"]}
Ev(op) == [op |-> op, i |-> 0, recipe |-> "", set |-> "", seed |-> None,
           pure |-> FALSE, tok |-> "", out |-> "", err |-> "", mode |-> "", g |-> TRUE,
           wide |-> FALSE, gen |-> None]
ModeOf(x) == IF x = "A" THEN "uniq" ELSE "rep"
(* Seeds that give the same start, as 7 and -7 do.                           *)
GenOf(d) == IF d = "-1" THEN "1" ELSE d
Insts(s) == DOMAIN s.inst
MeEvents(s) ==
  (IF Len(s.inst) >= MaxInst THEN {}
   ELSE {[Ev("new") EXCEPT !.recipe = IF p THEN "random" ELSE "mixed", !.set = x, !.mode = ModeOf(x),
                        !.seed = d, !.gen = GenOf(d), !.pure = p] :
           x \in Sets, d \in Seeds \cup {None}, p \in BOOLEAN})
  \cup {[Ev("call") EXCEPT !.i = k, !.tok = t, !.out = o, !.g = g] :
          k \in Insts(s), t \in Toks, o \in Outs, g \in BOOLEAN}
  \cup {[Ev("call") EXCEPT !.i = k, !.tok = t, !.out = o, !.wide = TRUE] :
          k \in Insts(s), t \in Toks, o \in Outs \ {"ValueError"}}
  \cup {[Ev(o) EXCEPT !.i = k, !.seed = d, !.gen = GenOf(d)] :
          o \in {"seed", "set_rng_seed"}, k \in Insts(s), d \in Seeds \cup {None}}
  \cup {[Ev("reset") EXCEPT !.i = k] : k \in Insts(s)}
  \cup {[Ev("set") EXCEPT !.i = k, !.set = x, !.mode = ModeOf(x), !.tok = "set " \o x] : k \in Insts(s), x \in Sets}
  \cup {Ev("proc")}
  \* (Early forks only, which is enough.)
  \cup (IF s.aside # <<>> THEN {Ev("join")} ELSE IF s.starts <= 1 THEN {Ev("fork")} ELSE {})

(* --- what the log says about an instance: l is its log                     *)
Last(S) == CHOOSE x \in S : \A y \in S : y <= x
IsStart(l, x) == \/ l[x].op \in {"new", "reset"}
                 \/ l[x].op = "seed" /\ l[1].pure
StartOf(l) == Last({x \in DOMAIN l : IsStart(l, x)})
(* The seed that is set when log entry x happens.                            *)
SeedAt(l, x) == l[Last({y \in 1..x : l[y].op \in {"new", "seed", "set_rng_seed"}})].seed
SetAt(l, x) == l[Last({y \in 1..x : l[y].op \in {"new", "set"}})].set
Relevant(e) == e.op \in {"call", "set", "seed"}
What(e) == IF e.op = "seed" THEN "seed " \o e.seed ELSE e.tok
Since(l) == LET q == SelectSeq(SubSeq(l, StartOf(l) + 1, Len(l)), Relevant)
            IN [x \in DOMAIN q |-> What(q[x])]
Influences(l, e) ==
  <<l[1].recipe, l[1].pure, SetAt(l, StartOf(l)), SeedAt(l, StartOf(l)),
    Since(l), e.tok>>
(* The same, but without the requests that were rejected.                    *)
Refused(l, x) == l[x].op = "call" /\ l[x].out = "ValueError" /\ SetAt(l, x) = "A"
Done(l) == LET from == StartOf(l)
               q == SelectSeq([x \in 1..(Len(l) - from) |-> <<l[from + x], Refused(l, from + x)>>],
                              LAMBDA p : Relevant(p[1]) /\ ~p[2])
           IN [x \in DOMAIN q |-> What(q[x][1])]
Effective(l, e) ==
  <<l[1].recipe, l[1].pure, SetAt(l, StartOf(l)), SeedAt(l, StartOf(l)),
    Done(l), e.tok>>
Seeded(l) == SeedAt(l, StartOf(l)) # None

(* Who gave an output: everyone with this seed, or one start alone.          *)
Timed(h, e) == [time |-> h.n] @@ e
Who(l) == IF Seeded(l) THEN <<"seed", GenOf(SeedAt(l, StartOf(l)))>>
          ELSE <<"start", ToString(l[StartOf(l)].time)>>

MeHStart(c) == [logs |-> <<>>, aside |-> <<>>, facts |-> {}, wides |-> {}, n |-> 0]
MeHNext(h, s, e) ==
  CASE e.op = "proc" -> [h EXCEPT !.logs = <<>>, !.n = @ + 1]
    [] e.op = "new" -> [h EXCEPT !.logs = Append(@, <<Timed(h, e)>>), !.n = @ + 1]
    [] e.op = "fork" -> [h EXCEPT !.aside = h.logs, !.n = @ + 1]
    [] e.op = "join" -> [h EXCEPT !.logs = h.aside, !.aside = <<>>, !.n = @ + 1]
    [] OTHER ->
         [n |-> h.n + 1, aside |-> h.aside,
          wides |-> IF e.op = "call" /\ e.wide THEN h.wides \cup {<<Who(h.logs[e.i]), e.out>>}
                    ELSE h.wides,
          logs |-> [h.logs EXCEPT ![e.i] = Append(@, Timed(h, e))],
          facts |-> IF e.op = "call" /\ Seeded(h.logs[e.i])
                    THEN h.facts \cup {<<Influences(h.logs[e.i], e), e.out, Effective(h.logs[e.i], e)>>}
                    ELSE h.facts]

(* C08: equal influences, equal output, over all instances and processes.    *)
Reproducible ==
  \A f, g \in hist.facts : f[1] = g[1] => f[2] = g[2]
(* C08: other seeds and other starts without a seed give other output.       *)
Different ==
  \A f, g \in hist.wides : f[2] = g[2] => f[1] = g[1]
(* C04: rejected requests have no influence.                                 *)
RejectedNothing ==
  \A f, g \in hist.facts : f[3] = g[3] => f[2] = g[2]
(* A call is accepted exactly if it contradicts no fact and leaves the       *)
(* global generator alone: so nothing else has, or may have, an influence.   *)
Exact ==
  \A e \in MeEvents(st) : e.op = "call" =>
     ((MeFails(st, e) = {}) <=>
        /\ e.g
        /\ e.wide => \A f \in hist.wides : f[2] = e.out => f[1] = Who(hist.logs[e.i])
        /\ \/ ~Seeded(hist.logs[e.i])
           \/ \A f \in hist.facts : f[1] = Influences(hist.logs[e.i], e) \/ f[3] = Effective(hist.logs[e.i], e)
                                     => f[2] = e.out)
=============================================================================
