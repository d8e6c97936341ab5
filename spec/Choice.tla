------------------------------- MODULE Choice -------------------------------
(* Choice emitters: C03, C04, C05, C06, C21 and parts of C01 and C07.        *)
(*                                                                           *)
(* State: items, the weighting (or none), the two replacement settings and   *)
(* the bag of items that are left (without replacement).  How an order is    *)
(* drawn is not modelled: any output that the clauses allow may happen.      *)
EXTENDS Common

ChNone == [made |-> FALSE, items |-> <<>>, wnone |-> TRUE, w |-> <<>>,
           repl |-> TRUE, roac |-> FALSE, left |-> <<>>,
           changed |-> FALSE, rejected |-> FALSE]
ChStart(c) == ChNone

Accum(w) == [x \in 1..Len(w) |-> Sum(SubSeq(w, 1, x))]
Deaccum(c) == [x \in 1..Len(c) |-> IF x = 1 THEN c[1] ELSE c[x] - c[x - 1]]

(* What a request is subject to.                                             *)
Single(e) == e.how \in {"one", "emit"}
Wanted(e) == IF Single(e) THEN 1 ELSE e.n
Mode(s, e) == IF ~s.repl THEN "norep"
              ELSE IF s.roac /\ ~Single(e) /\ e.n > 1 THEN "uniq" ELSE "rep"
Pool(s, e) == IF Mode(s, e) = "norep" THEN s.left ELSE Bag(s.items)
Enough(s, e) == Mode(s, e) = "rep" \/ Wanted(e) <= BagSize(Pool(s, e))

(* All/some of the items with value v have weight 0.                         *)
WOf(s, v) == {s.w[x] : x \in {y \in DOMAIN s.items : s.items[y] = v}}
AllZero(s, v) == ~s.wnone /\ WOf(s, v) = {0}
NoneZero(s, v) == s.wnone \/ 0 \notin WOf(s, v)
(* Weight 0 comes last: with replacement never, otherwise not while there is *)
(* something with weight.                                                    *)
ZeroLast(s, e) ==
    \/ s.wnone
    \/ Len(s.items) = 1
    \/ \A x \in DOMAIN e.out : AllZero(s, e.out[x]) =>
          /\ Mode(s, e) # "rep"
          /\ \A v \in DOMAIN Pool(s, e) :
                NoneZero(s, v) =>
                    Pool(s, e)[v] - Count(SubSeq(e.out, 1, x - 1), v) <= 0

NewErr(e) == IF e.items = <<>> THEN {"ValueError"}
             ELSE IF e.notseq THEN {"ValueError"}
             ELSE IF ~e.wnone /\ ~e.cwnone THEN {"TypeError"}
             ELSE IF ~e.wnone /\ Len(e.w) # Len(e.items) THEN {"ValueError"}
             ELSE IF ~e.cwnone /\ Len(e.cw) # Len(e.items) THEN {"ValueError"}
             ELSE {""}
SetErr(s, e) == IF e.op \in {"set_w", "set_cw"} /\ ~e.wnone
                   /\ Len(e.w) # Len(s.items)
                THEN {"ValueError"} ELSE {""}

Refill(s) == [s EXCEPT !.left = Bag(s.items)]
IfNoRep(s) == IF s.repl THEN s ELSE Refill(s)

ChApply(s, e) ==
  CASE e.op = "new" ->
         IF e.err # "" THEN s
         ELSE [made |-> TRUE, items |-> e.items,
               wnone |-> e.wnone /\ e.cwnone,
               w |-> IF ~e.wnone THEN e.w ELSE IF ~e.cwnone THEN Deaccum(e.cw)
                     ELSE <<>>,
               repl |-> e.repl \/ e.roac, roac |-> e.roac,
               left |-> Bag(e.items), changed |-> FALSE, rejected |-> FALSE]
    [] e.op = "call" ->
         IF e.err # "" THEN [s EXCEPT !.rejected = FALSE]
         ELSE [s EXCEPT !.left = IF Mode(s, e) = "norep"
                                 THEN BagMinus(@, e.out) ELSE @,
                        !.rejected = FALSE]
    [] e.op \in {"reset", "seed"} -> IfNoRep(s)
    [] e.op \in {"look", "set_rng_seed", "scribble"} -> s
    [] e.op \in {"set_w", "set_cw"} ->
         IF e.err # "" THEN [s EXCEPT !.rejected = TRUE]
         ELSE IfNoRep([s EXCEPT !.wnone = e.wnone, !.changed = TRUE,
                                !.w = IF e.wnone THEN <<>>
                                      ELSE IF e.op = "set_w" THEN e.w
                                      ELSE Deaccum(e.w)])
    [] e.op = "set_repl" ->
         IF e.b = s.repl THEN s
         ELSE Refill([s EXCEPT !.repl = e.b, !.roac = @ /\ e.b,
                               !.changed = TRUE])
    [] e.op = "set_roac" ->
         IF e.b /\ ~s.repl
         THEN Refill([s EXCEPT !.repl = TRUE, !.roac = TRUE, !.changed = TRUE])
         ELSE [s EXCEPT !.roac = e.b, !.changed = TRUE]

(* What can be observed of a state t after an event.                         *)
Left(t) == IF t.repl THEN Bag(t.items) ELSE t.left
NUI(t) == BagSize(Left(t))
NUV(t) == Cardinality({v \in DOMAIN Left(t) : Left(t)[v] > 0})
EUV(t) == ~t.repl /\ NUI(t) = NUV(t)

Settled(t, o) ==
    /\ o.repl = t.repl /\ o.roac = t.roac
    /\ o.wnone = t.wnone /\ o.cwnone = t.wnone
    /\ (~t.wnone => o.w = t.w /\ o.cw = Accum(t.w))
Items(t, o) == o.items = t.items

ObsClauses(t, e, rej) ==
  IF ~e.obs.on \/ ~t.made THEN <<>>
  ELSE << <<"C05", "settings agree with those that were made last", Settled(t, e.obs)>>,
          <<"C05", "settings cannot be changed in place", e.obs.frozen>>,
          <<"C05", "items stay as given", Items(t, e.obs)>>,
          <<"C06", "number of unique items", e.obs.nui = NUI(t)>>,
          <<"C06", "number of unique values", e.obs.nuv = NUV(t)>>,
          <<"C06", "whether only unique values are emitted", e.obs.euv = EUV(t)>>,
          <<"C03", "what is left without replacement",
            t.repl \/ e.obs.nui = NUI(t)>>,
          <<"C21", "a rejected change leaves everything as it was",
            ~rej \/ (Settled(t, e.obs) /\ e.obs.nui = NUI(t))>> >>

CallClauses(s, e) ==
  LET mode == Mode(s, e)
      good == IF ~Enough(s, e) THEN e.err = "ValueError"
              ELSE e.err = "" /\ IsSubBag(e.out, IF mode = "rep"
                                  THEN [v \in Elems(s.items) |-> Len(e.out)]
                                  ELSE Pool(s, e))
                              /\ Len(e.out) = Wanted(e)
  IN << <<"C01", "the number of values requested",
          IF ~Enough(s, e) THEN e.err = "ValueError"
          ELSE e.err = "" /\ Len(e.out) = Wanted(e)>>,
        <<"C01", "one bare value, or a list",
          e.err # "" \/ e.shape = (IF Single(e) THEN "one" ELSE "list")>>,
        <<"C03", "only items that are left, or a ValueError if there are too few",
          mode # "norep" \/ good>>,
        <<"C04", "different items within a call, or a ValueError if there are too few",
          mode # "uniq" \/ good>>,
        <<"C07", "only items of the emitter",
          e.err # "" \/ Elems(e.out) \subseteq Elems(s.items)>>,
        <<"C07", "weight 0 only if there is nothing with weight",
          e.err # "" \/ ~(Elems(e.out) \subseteq Elems(s.items)) \/ ZeroLast(s, e)>>,
        <<"C05", "the settings made last decide what is chosen",
          ~s.changed \/ good>>,
        <<"C21", "goes on working after a rejected change",
          ~s.rejected \/ good>> >>

OpClauses(s, e) ==
  CASE e.op = "new" ->
         << <<"C21", "unusable arguments are rejected, others are not",
              e.err \in NewErr(e)>> >>
    [] e.op = "call" -> CallClauses(s, e)
    [] e.op \in {"set_w", "set_cw"} ->
         << <<"C21", "unusable weights are rejected, others are not",
              e.err \in SetErr(s, e)>>,
            <<"C05", "setting weights", e.err \in SetErr(s, e)>> >>
    [] e.op \in {"set_repl", "set_roac"} ->
         << <<"C05", "setting replacement", e.err = "">> >>
    [] e.op \in {"reset", "seed", "set_rng_seed"} ->
         << <<"C08", "restarting and seeding work", e.err = "">> >>
    [] OTHER -> <<>>

ChFails(s, e) ==
  Failing(OpClauses(s, e) \o ObsClauses(ChApply(s, e), e, e.op \in {"set_w", "set_cw", "new"} /\ e.err # ""))

ChTag(s, e) ==
  e.op \o "/" \o
  (IF e.op = "call"
   THEN Mode(s, e) \o (IF ~Enough(s, e) THEN "/too many"
                       ELSE IF Wanted(e) = 0 THEN "/none"
                       ELSE IF Mode(s, e) # "rep" /\ Wanted(e) = BagSize(Pool(s, e))
                       THEN "/all" ELSE "/some")
        \o (IF s.wnone THEN "" ELSE IF 0 \in Elems(s.w) THEN "/zero weights" ELSE "/weights")
        \o (IF Distinct(s.items) THEN "" ELSE "/duplicates")
   ELSE IF e.op = "new" THEN (IF e.err = "" THEN "ok" ELSE e.err)
   ELSE (IF s.repl THEN (IF s.roac THEN "uniq" ELSE "rep")
         ELSE IF NUI(s) < Len(s.items) THEN "norep, used" ELSE "norep, fresh")
        \o (IF e.err # "" THEN "/" \o e.err ELSE ""))
=============================================================================
