------------------------------- MODULE Deprec -------------------------------
(* Deprecated names of modules: C22.  (Setting the iterator factory of a     *)
(* sequential emitter is in Fixed.)                                          *)
(*                                                                           *)
(* State: how often each name was accessed (an access must not change what   *)
(* later ones do), and an emitter made with the deprecated Wrap class.       *)
EXTENDS Common

Emitters == "fauxdoc.emitters"
Wrappers == "fauxdoc.emitters.wrappers"
Typing == "fauxdoc.typing"
Modules == {Emitters, Wrappers, Typing}

(* What the deprecated names of a module stand for.                          *)
Deprecated(m) ==
  CASE m \in {Emitters, Wrappers} -> [Wrap |-> "Wrap"]
    [] m = Typing -> [Number |-> "float",
                      EmitterLikeCallable |-> "EmitterLike or callable",
                      StrEmitterLike |-> "EmitterLike[str]",
                      IntEmitterLike |-> "EmitterLike[int]",
                      BoolEmitterLike |-> "EmitterLike[bool]"]
    [] OTHER -> <<>>
Others(m) ==
  CASE m = Emitters ->
         {"Choice", "chance", "poisson_choice", "gaussian_choice", "Iterative", "Sequential",
          "Static", "BasedOnFields", "CopyFields", "make_alphabet", "Text", "Word", "WrapOne",
          "WrapMany", "choice", "fixed", "fromfields", "text", "wrappers"}
    [] m = Wrappers -> {"WrapOne", "WrapMany", "BoundWrapper"}
    [] m = Typing -> {"EmitterLike", "ImplementsRNG", "RandomEmitterLike", "FieldLike",
                      "FieldReturn", "T", "F", "CT", "SourceT", "OutputT", "OrderedDict", "UserList"}
    [] m = "fauxdoc" -> {"dtrange", "emitter", "emitters", "group", "mathtools", "mixins",
                         "profile", "typing"}
    [] OTHER -> {}
(* Names that no module has, and those that are deprecated elsewhere.  (A    *)
(* module may have other names than those that are listed here.)  Neither    *)
(* does any module have mangled names, which are almost deprecated ones.     *)
Unknown == {"wrap", "WrapTwo", "Numbers", "StrEmitter", "FloatEmitterLike", "__nope__",
            "emitterlikecallable", "Wrap", "Number", "StrEmitterLike", "IntEmitterLike",
            "BoolEmitterLike", "EmitterLikeCallable"}
IsOld(e) == e.name \in DOMAIN Deprecated(e.mod)
IsOther(e) == e.name \in Others(e.mod)

DeNoWrap == [on |-> FALSE, a |-> <<>>, b |-> <<>>, pos |-> 0]
DeStart(c) == [seen |-> <<>>, wrap |-> DeNoWrap]
Key(e) == e.mod \o "." \o e.name
DeApply(s, e) ==
  CASE e.op = "access" ->
         LET k == Key(e) IN
         [s EXCEPT !.seen = IF k \in DOMAIN s.seen THEN [s.seen EXCEPT ![k] = Min(@ + 1, 2)]
                            ELSE s.seen @@ (k :> 1)]
    [] e.op = "wrap_new" -> IF e.err = "" THEN [s EXCEPT !.wrap = [on |-> TRUE, a |-> e.a, b |-> e.b, pos |-> 0]] ELSE s
    [] e.op = "wrap_call" -> [s EXCEPT !.wrap.pos = s.wrap.pos + e.n]
    [] e.op = "wrap_reset" -> [s EXCEPT !.wrap.pos = 0]
    [] OTHER -> s

Pairs(w, n) == LET p == Cyc(w.a, w.pos, n) q == Cyc(w.b, w.pos, n)
               IN [x \in 1..n |-> p[x] \o "-" \o q[x]]
(* way: "get" (getattr), "has" (hasattr), "from" (from ... import ...) or    *)
(* "star" (import *, which a package with __all__ has).                      *)
Missing(e) == IF e.way = "from" THEN "ImportError" ELSE "AttributeError"
DeClauses(s, e) ==
  CASE e.op = "access" /\ IsOld(e) ->
         <<<<"C22", "a deprecated name can still be imported and read", e.err = "">>,
           <<"C22", "a deprecated name gives what it stands for",
             e.err # "" \/ e.way = "has" \/ e.obj = Deprecated(e.mod)[e.name]>>,
           <<"C22", "a warning that names the deprecated name, with every access", e.warned >= 1>>,
           <<"C22", "no other warning", e.other = 0>>>>
    [] e.op = "access" ->
         <<<<"C22", "other unknown names raise an AttributeError",
             ~(e.mangled \/ e.name \in Unknown) \/ e.err = Missing(e)>>,
           <<"C22", "names that are not deprecated are there", ~IsOther(e) \/ e.err = "">>,
           <<"C22", "no warning unless something deprecated is used", e.warned = 0 /\ e.other = 0>>>>
    [] e.op = "dir" ->
         <<<<"C22", "deprecated names are listed among the names of the module",
             e.err = "" /\ DOMAIN Deprecated(e.mod) \subseteq Elems(e.out)>>,
           <<"C22", "all other names are listed too", Others(e.mod) \subseteq Elems(e.out)>>,
           <<"C22", "no warning unless something deprecated is used", e.warned = 0 /\ e.other = 0>>>>
    [] e.op \in {"use", "fresh"} ->
         <<<<"C22", "no warning unless something deprecated is used", e.other = 0>>>>
    [] e.op = "wrap_new" ->
         <<<<"C22", "the deprecated class works",
             e.err = (IF e.good THEN "" ELSE "TypeError")>>,
           <<"C22", "the deprecated class uses its seed, for its sources too", e.err # "" \/ e.seeded>>,
           <<"C22", "no other warning", e.other = 0>>>>
    [] e.op = "wrap_call" ->
         <<<<"C22", "the deprecated class works", e.err = "" /\ e.out = Pairs(s.wrap, e.n)>>,
           <<"C22", "no other warning", e.other = 0>>>>
    [] e.op = "direct" ->
         <<<<"C22", "the helper gives deprecated attributes and warns",
             IF e.good THEN e.err = "" /\ e.warned = 1 /\ e.obj = "itself"
             ELSE e.err = "AttributeError" /\ e.warned = 0>>,
           <<"C22", "no other warning", e.other = 0>>>>
    [] OTHER -> <<<<"C22", "the deprecated class works", e.err = "">>>>
DeFails(s, e) == Failing(DeClauses(s, e))
DeTag(s, e) ==
  e.op \o (IF e.op = "access"
           THEN "/" \o e.way \o (IF IsOld(e) THEN "/deprecated" ELSE IF IsOther(e) THEN "/ordinary" ELSE "/unknown")
                \o (IF Key(e) \in DOMAIN s.seen THEN "/again" ELSE "")
           ELSE IF e.op \in {"wrap_new", "direct"} THEN (IF e.good THEN "" ELSE "/bad")
           ELSE IF e.op \in {"use", "fresh"} THEN "/" \o e.name ELSE "")
=============================================================================
