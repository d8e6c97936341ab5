-------------------------------- MODULE Wrap --------------------------------
(* Wrapper emitters: C12 and parts of C01, C02 and C21.                      *)
(*                                                                           *)
(* State: the sources (streams by name; pos is the set of places where the   *)
(* source may be, as a rejected function may or may not have started it      *)
(* over), and the current function with the emitter that it is bound to.     *)
(* Functions log their calls: which function, with what, which random        *)
(* generator, and the result, or the error that they raise (raised is that   *)
(* of the last call of a function in a request).                             *)
EXTENDS Calls

WrNone == [kind |-> "none", names |-> <<>>, items |-> <<>>, pos |-> <<>>,
           fn |-> "", bound |-> "", params |-> <<>>, logged |-> TRUE,
           rejected |-> FALSE]
WrStart(c) == WrNone

WrSingle(e) == e.how \in {"one", "emit"}
WrWanted(e) == IF WrSingle(e) THEN 1 ELSE e.n

(* e.sig: the function has a signature; otherwise e.ok says whether it can   *)
(* be called with a value of the source.                                     *)
WrFits(kind, names, e) ==
  IF ~e.sig THEN e.ok
  ELSE IF kind = "one" THEN FitsOne(e.params) ELSE FitsNamed(e.params, names)

Advance(s, k) == [x \in DOMAIN s.pos |->
                    {(p + k) % Len(s.items[x]) : p \in s.pos[x]}]
Began(s) == [x \in DOMAIN s.items |-> {0}]
Maybe(s) == [x \in DOMAIN s.items |-> s.pos[x] \cup {0}]
(* Places that agree with what a source gave.                                *)
Places(s, x, vals) == {p \in s.pos[x] : vals = Cyc(s.items[x], p, Len(vals))}

WrApply(s, e) ==
  CASE e.op = "new" ->
         IF e.err # "" THEN s
         ELSE [kind |-> e.kind, names |-> e.names, items |-> e.items,
               pos |-> [x \in DOMAIN e.items |-> {0}], fn |-> e.fn,
               bound |-> "own", params |-> e.params, logged |-> e.logged,
               rejected |-> FALSE]
    [] e.op = "call" ->
         IF e.err # e.raised THEN s
         ELSE [s EXCEPT !.pos = [x \in DOMAIN s.pos |->
                 {(p + Len(e.taken[x])) % Len(s.items[x]) : p \in Places(s, x, e.taken[x])}],
                 !.rejected = FALSE]
    [] e.op = "reset" -> [s EXCEPT !.pos = Began(s)]
    [] e.op = "set_fn" ->
         IF e.err # "" THEN [s EXCEPT !.pos = Maybe(s), !.rejected = TRUE]
         ELSE [s EXCEPT !.pos = Began(s), !.fn = e.fn, !.bound = e.bound,
                        !.params = e.params, !.logged = e.logged]
    [] e.op = "bind" -> [s EXCEPT !.bound = e.bound]
    [] e.op = "swap" -> [s EXCEPT !.fn = e.fn, !.params = e.params, !.logged = e.logged]
    [] OTHER -> s

(* Each value of each source is the next one.                                *)
TakenRight(s, e) ==
  \A x \in DOMAIN s.items :
     /\ Len(e.taken[x]) = WrWanted(e)
     /\ Places(s, x, e.taken[x]) # {}
Row(e, k) == [x \in DOMAIN e.taken |-> e.taken[x][k]]
CallsRight(s, e) ==
  IF ~s.logged THEN e.calls = <<>> /\ e.out = e.mapped
  ELSE /\ Len(e.calls) = WrWanted(e)
       /\ \A k \in DOMAIN e.calls :
            /\ e.calls[k].fn = s.fn
            /\ e.calls[k].args = Row(e, k)
            /\ e.calls[k].res = e.out[k]
RngRight(s, e) ==
  \A k \in DOMAIN e.calls :
     e.calls[k].rng = IF WantsRng(s.params) THEN s.bound ELSE "none"

(* The function raised an error: it is passed on; the calls before were as   *)
(* usual, and the sources may have given some values for calls to come.      *)
Raised(s, e) ==
  /\ e.raised # ""
  /\ e.err = e.raised
  /\ \A x \in DOMAIN s.items :
       /\ Len(e.taken[x]) <= WrWanted(e)
       /\ Places(s, x, e.taken[x]) # {}
RaisedRight(s, e) ==
  /\ Raised(s, e)
  /\ s.logged =>
       \A k \in DOMAIN e.calls :
         /\ e.calls[k].fn = s.fn
         /\ \A x \in DOMAIN e.taken : k <= Len(e.taken[x])
         /\ e.calls[k].args = Row(e, k)
         /\ (e.calls[k].err # "") = (k = Len(e.calls))

Good(s, e) == /\ e.err = ""
              /\ Len(e.out) = WrWanted(e)
              /\ TakenRight(s, e)
              /\ CallsRight(s, e)
WrClauses(s, e) ==
  CASE e.op = "call" ->
         << <<"C01", "the number of values requested",
              Raised(s, e) \/ (e.err = "" /\ Len(e.out) = WrWanted(e))>>,
            <<"C01", "one bare value, or a list",
              e.err # "" \/ e.shape = (IF WrSingle(e) THEN "one" ELSE "list")>>,
            <<"C02", "values of sources are neither skipped nor taken in advance",
              Raised(s, e) \/ (e.err = "" /\ TakenRight(s, e))>>,
            <<"C12", "one call of the function for each output, on the next source values",
              e.raised # "" \/ Good(s, e)>>,
            <<"C12", "an error of the function is passed on, after one call for each output",
              e.raised = "" \/ RaisedRight(s, e)>>,
            <<"C12", "the random generator of the emitter that the function is bound to",
              e.err # e.raised \/ RngRight(s, e)>>,
            <<"C21", "goes on with the previous function after a rejected one",
              ~s.rejected \/ Good(s, e) \/ RaisedRight(s, e)>> >>
    [] e.op \in {"new", "set_fn"} ->
         LET fits == IF e.op = "new" THEN WrFits(e.kind, e.names, e)
                     ELSE WrFits(s.kind, s.names, e)
             right == e.err = (IF fits THEN "" ELSE "TypeError")
         IN << <<"C12", "functions that fit are accepted, others are rejected", right>>,
               <<"C21", "functions that fit are accepted, others are rejected", right>>,
               <<"C12", "functions are not called before there is an output",
                 e.calls = <<>>>>,
               <<"C21", "a rejected function is not kept",
                 ~(e.op = "set_fn" /\ e.err # "") \/ e.kept>> >>
    [] OTHER -> << <<"C12", "resetting and seeding work", e.err = "">> >>
WrFails(s, e) == Failing(WrClauses(s, e) \o
  (IF e.op = "new" \/ s.kind = "none" \/ ~e.obs.on THEN <<>>
   ELSE << <<"C06", "unknown number of unique values", e.obs.nuv = -1 /\ ~e.obs.euv>> >>))

WrTag(s, e) ==
  (IF e.op = "new" THEN e.kind ELSE s.kind) \o "/" \o e.op \o
  (IF e.op = "call" THEN
     (IF WrSingle(e) THEN "/one" ELSE IF e.n = 0 THEN "/none" ELSE "/many")
     \o (IF s.rejected THEN "/after a rejection" ELSE "")
     \o (IF WantsRng(s.params) THEN "/rng of " \o s.bound ELSE "")
     \o (IF s.logged THEN "" ELSE "/builtin")
     \o (IF e.raised = "" THEN "" ELSE "/raises")
   ELSE IF e.op \in {"new", "set_fn"} THEN
     "/" \o e.via \o "/" \o (IF e.err = "" THEN "ok" ELSE e.err) \o (IF e.sig THEN "" ELSE "/builtin")
   ELSE "")
=============================================================================
