-------------------------------- MODULE Text --------------------------------
(* Word and text emitters: C10, C11 and parts of C01, C02 and C06.           *)
(*                                                                           *)
(* A word emitter has two parts, num (its lengths) and tok (its characters); *)
(* a text emitter three, num (its numbers of words), tok (its words) and sep *)
(* (its separators).  Of every part is known what it may give: a stream from *)
(* a certain place on (fixed), or only values from a set.  An event has the  *)
(* values that the parts gave during the call, and what came out.            *)
EXTENDS Common, SequencesExt

(* fin: the emitter knows its items; word: it is a word emitter, of these    *)
(* parts.                                                                    *)
NoPart == [fixed |-> FALSE, items |-> <<>>, pos |-> 0, fin |-> FALSE, word |-> <<>>]
TxNone == [kind |-> "none", num |-> NoPart, tok |-> NoPart, sep |-> NoPart,
           spaces |-> FALSE, vocab |-> FALSE]
TxStart(c) == TxNone

TxSingle(e) == e.how \in {"one", "emit"}
TxWanted(e) == IF TxSingle(e) THEN 1 ELSE e.n
PartOf(p) == [fixed |-> p.fixed, items |-> p.items, pos |-> 0, fin |-> p.fin,
              word |-> p.word]
Moved(p, k) == [p EXCEPT !.pos = IF p.items = <<>> THEN 0 ELSE (@ + k) % Len(p.items)]
Back(p) == [p EXCEPT !.pos = 0]

TxApply(s, e) ==
  CASE e.op = "new" ->
         [kind |-> e.kind, num |-> PartOf(e.parts.num), tok |-> PartOf(e.parts.tok),
          sep |-> PartOf(e.parts.sep), spaces |-> e.spaces, vocab |-> e.vocab]
    [] e.op = "call" ->
         [s EXCEPT !.num = Moved(@, Len(e.num)), !.tok = Moved(@, Len(e.tok)),
                   !.sep = Moved(@, Len(e.sep))]
    [] e.op = "set_roac" -> [s EXCEPT !.vocab = e.vocab]
    [] e.op = "reset" ->
         [s EXCEPT !.num = Back(@), !.tok = Back(@), !.sep = Back(@)]
    [] OTHER -> s

(* What a part gave is right for it.                                         *)
Gave(p, vals) == IF p.fixed THEN vals = Cyc(p.items, p.pos, Len(vals))
                 ELSE p.items = <<>> \/ Elems(vals) \subseteq Elems(p.items)

(* The places after which the values of each output begin.                   *)
Starts(num) == FoldLeft(LAMBDA acc, k : Append(acc, acc[Len(acc)] + k), <<0>>, num)
Words(e) ==
  LET from == Starts(e.num)
  IN [x \in DOMAIN e.num |-> Cat(SubSeq(e.tok, from[x] + 1, from[x] + e.num[x]))]
Seps(num) == [x \in DOMAIN num |-> Max(num[x] - 1, 0)]
Sep(s, e, y) == IF s.spaces THEN " " ELSE e.sep[y]
Texts(s, e) ==
  LET from == Starts(e.num)
      sfrom == Starts(Seps(e.num))
      TextOf(x) == Cat([y \in 1..(2 * e.num[x] - 1) |->
                          IF y % 2 = 1 THEN e.tok[from[x] + (y + 1) \div 2]
                          ELSE Sep(s, e, sfrom[x] + y \div 2)])
  IN [x \in DOMAIN e.num |-> IF e.num[x] = 0 THEN "" ELSE TextOf(x)]

Drawn(s, e) ==
  /\ Len(e.num) = TxWanted(e)
  /\ Len(e.tok) = Sum(e.num)
  /\ (s.kind = "text" /\ ~s.spaces) => Len(e.sep) = Sum(Seps(e.num))
AllGave(s, e) == Gave(s.num, e.num) /\ Gave(s.tok, e.tok) /\ Gave(s.sep, e.sep)
Right(s, e) ==
  /\ e.err = ""
  /\ Drawn(s, e)
  /\ AllGave(s, e)
  /\ e.out = IF s.kind = "word" THEN Words(e) ELSE Texts(s, e)

(* A vocabulary (words replaced only after each call): all of its words are  *)
(* used before any is used again.                                            *)
Blocks(tok, n) == {SubSeq(tok, k * n + 1, Min((k + 1) * n, Len(tok))) :
                   k \in 0..((Len(tok) - 1) \div n)}
VocabRight(s, e) ==
  Len(e.tok) > 0 => \A b \in Blocks(e.tok, Len(s.tok.items)) : Distinct(b)

(* The number of different outputs: for each different number, what can be   *)
(* put in that many places.  Unknown (-1) if any part is.                    *)
WordNUV(num, tok) ==
  IF ~num.fin \/ ~tok.fin THEN -1
  ELSE SumSet([k \in Elems(num.items) |-> Pow(Cardinality(Elems(tok.items)), k)],
              Elems(num.items))
PartNUV(p) == IF p.word # <<>> THEN WordNUV(p.word[1], p.word[2])
              ELSE IF p.fin THEN Cardinality(Elems(p.items)) ELSE -1
NUVOf(s) ==
  IF ~s.num.fin \/ PartNUV(s.tok) < 0 \/ (s.kind = "text" /\ ~s.spaces /\ PartNUV(s.sep) < 0)
  THEN -1
  ELSE LET ns == IF s.spaces THEN 1 ELSE PartNUV(s.sep)
           ways == [k \in Elems(s.num.items) |->
                      Pow(PartNUV(s.tok), k) *
                      (IF s.kind = "word" THEN 1 ELSE Pow(ns, Max(k - 1, 0)))]
       IN SumSet(ways, Elems(s.num.items))

(* The characters of code point ranges, as code points.                      *)
Points(r) == [x \in 1..Max(0, r[2] - r[1] + 1) |-> r[1] + x - 1]
Alphabet(rs) == Flat([x \in DOMAIN rs |-> Points(rs[x])])
DefaultRanges == <<<<33, 33>>, <<35, 38>>, <<40, 126>>, <<161, 172>>, <<174, 255>>>>

P(s) == IF s.kind = "word" THEN "C10" ELSE "C11"
TxClauses(s, e) ==
  CASE e.op = "call" ->
         << <<"C01", "the number of values requested",
              e.err = "" /\ Len(e.out) = TxWanted(e)>>,
            <<"C01", "one bare value, or a list",
              e.err # "" \/ e.shape = (IF TxSingle(e) THEN "one" ELSE "list")>>,
            <<P(s), "the drawn parts, put together in order", Right(s, e)>>,
            <<P(s), "a call starts no part over, unless the words of a vocabulary run out",
              /\ e.over.num = 0 /\ e.over.sep = 0
              /\ e.over.tok = 0 \/ (s.vocab /\ e.over.tok <= (Len(e.tok) - 1) \div Len(s.tok.items))>>,
            <<"C11", "a vocabulary is used up before words are repeated",
              ~s.vocab \/ e.err # "" \/ VocabRight(s, e)>>,
            <<"C02", "values of parts are neither skipped nor taken in advance",
              e.err = "" /\ Drawn(s, e) /\ AllGave(s, e)>> >>
    [] e.op = "alpha" ->
         << <<"C10", "exactly the characters in the ranges",
              e.err = "" /\ e.codes = Alphabet(IF e.default THEN DefaultRanges ELSE e.ranges)>> >>
    [] e.op = "new" ->
         << <<P(e), "creating and resetting work", e.err = "">>,
            <<"C06", "emitters can be made whether or not the numbers of their parts are known",
              e.err = "">> >>
    [] OTHER -> << <<P(IF e.op = "new" THEN e ELSE s), "creating and resetting work", e.err = "">> >>
TxFails(s, e) ==
  LET t == TxApply(s, e)
  IN Failing(TxClauses(s, e) \o
       (IF ~e.obs.on \/ t.kind = "none" THEN <<>>
        ELSE << <<"C06", "number of unique values", e.obs.nuv = NUVOf(t)>>,
                <<"C06", "never only unique values", ~e.obs.euv>> >>))

TxTag(s, e) ==
  (IF e.op = "new" THEN e.kind ELSE IF e.op = "alpha" THEN "" ELSE s.kind) \o "/" \o e.op \o
  (IF e.op = "call" /\ e.err = ""
   THEN (IF Len(e.num) = 0 THEN "/none" ELSE IF Len(e.num) = 1 THEN "/one" ELSE "/many")
        \o (IF 0 \in Elems(e.num) THEN "/empty ones" ELSE "")
        \o (IF s.vocab THEN (IF Len(e.tok) > Len(s.tok.items) THEN "/more than the vocabulary"
                             ELSE "/vocabulary") ELSE "")
   ELSE "")
=============================================================================
