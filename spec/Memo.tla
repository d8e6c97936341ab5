-------------------------------- MODULE Memo --------------------------------
(* Reproducibility of random output (C08, and parts of C16).                 *)
(*                                                                           *)
(* What an instance gives is an uninterpreted function of its recipe, its    *)
(* settings, its seed and the calls since it was started; memo is what is    *)
(* known of this function.  Processes, instances, and the order in which     *)
(* they are used do not occur in it.  Global random state, other instances   *)
(* and unseeded ones are not in it either.                                   *)
EXTENDS Common

None == "none"        (* no seed: nothing is known about the output *)
(* aside: the instances of this process while a copy of it goes on.          *)
MeStart(c) == [memo |-> <<>>, inst |-> <<>>, wide |-> <<>>, starts |-> 0, aside |-> <<>>]

(* first: the settings that it was started with; hist: since then.           *)
Key(x, tok) == <<x.recipe, x.first, x.seed>> \o x.hist \o <<tok>>
(* The same without the requests that were rejected: an emitter that         *)
(* replaces items after calls (mode "uniq") is not changed by these (C04).   *)
KeyDone(x, tok) == <<"done", x.recipe, x.first, x.seed>> \o x.done \o <<tok>>
Rejected(x, e) == x.mode = "uniq" /\ e.out = "ValueError"
Known(s, k) == k \in DOMAIN s.memo
(* A call that nothing can be said about.                                    *)
Free(x) == x.seed = None

(* gen: the state that a generator with this seed starts with (different     *)
(* seeds may give the same one).  Starts without a seed are all different.   *)
(* cls: what tells starts that give the same output from others.             *)
(* A wide output is one of so many possible ones that it does not occur      *)
(* again by chance; wide is the class of each of those that were given.      *)
Class(s, gen) == IF gen = None THEN <<"start", ToString(s.starts)>> ELSE <<"gen", gen>>
Differs(s, x, e) == ~e.wide \/ e.out \notin DOMAIN s.wide \/ s.wide[e.out] = x.cls

(* pure: there are only random parts, so that seeding is a new start.        *)
Restart(s, x, seed, gen) ==
  [x EXCEPT !.seed = seed, !.next = seed, !.nextgen = gen, !.cls = Class(s, gen),
            !.hist = <<>>, !.done = <<>>, !.first = x.set]

MeApply(s, e) ==
  CASE e.op = "proc" -> [s EXCEPT !.inst = <<>>]
    \* A copy of the process has copies of the instances.
    [] e.op = "fork" -> [s EXCEPT !.aside = <<s.inst>>]
    [] e.op = "join" -> [s EXCEPT !.inst = s.aside[1], !.aside = <<>>]
    [] e.op = "new" ->
         [s EXCEPT !.inst = Append(@, [recipe |-> e.recipe, set |-> e.set,
              first |-> e.set, seed |-> e.seed, next |-> e.seed,
              nextgen |-> e.gen, cls |-> Class(s, e.gen), hist |-> <<>>,
              done |-> <<>>, pure |-> e.pure, mode |-> e.mode]),
                   !.starts = @ + 1]
    [] e.op = "call" ->
         LET x == s.inst[e.i]
             k == Key(x, e.tok)
             d == KeyDone(x, e.tok)
         IN [s EXCEPT !.inst[e.i].hist = Append(@, e.tok),
                      !.inst[e.i].done = IF Rejected(x, e) THEN @ ELSE Append(@, e.tok),
                      !.memo = IF Free(x) \/ (Known(s, k) /\ Known(s, d)) THEN @
                               ELSE @ @@ (k :> e.out) @@ (d :> e.out),
                      !.wide = IF e.wide THEN @ @@ (e.out :> x.cls) ELSE @]
    [] e.op = "reset" -> [s EXCEPT !.inst[e.i] = Restart(s, @, @.next, @.nextgen), !.starts = @ + 1]
    [] e.op = "seed" ->
         IF s.inst[e.i].pure THEN [s EXCEPT !.inst[e.i] = Restart(s, @, e.seed, e.gen), !.starts = @ + 1]
         ELSE [s EXCEPT !.inst[e.i].next = e.seed,
                        !.inst[e.i].nextgen = e.gen,
                        !.inst[e.i].hist = Append(@, "seed " \o e.seed),
                        !.inst[e.i].done = Append(@, "seed " \o e.seed)]
    [] e.op = "set_rng_seed" -> [s EXCEPT !.inst[e.i].next = e.seed, !.inst[e.i].nextgen = e.gen]
    [] e.op = "set" ->
         [s EXCEPT !.inst[e.i].hist = Append(@, e.tok),
                   !.inst[e.i].done = Append(@, e.tok),
                   !.inst[e.i].mode = e.mode,
                   !.inst[e.i].set = e.set]
    [] OTHER -> s

MeClauses(s, e) ==
  << <<"C08", "the global random generator is left alone", e.g>>,
     <<"C08", "starting and seeding work", e.op = "call" \/ e.err = "">> >>
  \o (IF e.op # "call" THEN <<>>
      ELSE LET x == s.inst[e.i]
               k == Key(x, e.tok)
               d == KeyDone(x, e.tok)
           IN << <<"C08", "equal seeds and calls give equal output",
                   Free(x) \/ ~Known(s, k) \/ s.memo[k] = e.out>>,
                 <<"C08", "different seeds, and starts without a seed, give different output",
                   Differs(s, x, e)>>,
                <<"C04", "a rejected request changes nothing",
                   Free(x) \/ Known(s, k) \/ ~Known(s, d) \/ s.memo[d] = e.out>> >>)
MeFails(s, e) == Failing(MeClauses(s, e))

MeTag(s, e) ==
  IF e.op # "call" THEN e.op
  ELSE IF Free(s.inst[e.i]) THEN "call/unseeded" \o (IF e.wide THEN "/wide" ELSE "")
  ELSE IF Known(s, Key(s.inst[e.i], e.tok))
  THEN "call/compared/" \o e.kind
  ELSE IF Known(s, KeyDone(s.inst[e.i], e.tok))
  THEN "call/compared/after a rejected one" ELSE "call/first"
=============================================================================
