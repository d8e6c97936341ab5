-------------------------------- MODULE Limbs -------------------------------
(* Natural numbers of any size, as sequences of digits to a base, the lowest *)
(* digit first, with no zeros at the end: <<>> is 0.  (TLC's own integers    *)
(* have 32 bits.  Base squared times the number of digits must fit in them.) *)
EXTENDS Integers, Sequences
CONSTANT Base

LimbOf(s, i) == IF i \in DOMAIN s THEN s[i] ELSE 0
MoreLimbs(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)
RECURSIVE Trim(_)
Trim(s) == IF s # <<>> /\ s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Carry(_, _)
Carry(s, c) ==
  IF s = <<>> THEN IF c = 0 THEN <<>> ELSE <<c % Base>> \o Carry(<<>>, c \div Base)
  ELSE <<(Head(s) + c) % Base>> \o Carry(Tail(s), (Head(s) + c) \div Base)
Norm(s) == Trim(Carry(s, 0))

Plus(a, b) == Norm([i \in 1..MoreLimbs(a, b) |-> LimbOf(a, i) + LimbOf(b, i)])
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) == IF i = 0 THEN FALSE
                     ELSE IF LimbOf(a, i) # LimbOf(b, i) THEN LimbOf(a, i) < LimbOf(b, i)
                     ELSE LessFrom(a, b, i - 1)
Less(a, b) == LessFrom(a, b, MoreLimbs(a, b))
AtMost(a, b) == ~Less(b, a)
(* a - b, or 0 if b is more than a.                                          *)
Minus(a, b) == IF Less(a, b) THEN <<>>
               ELSE Norm([i \in 1..MoreLimbs(a, b) |-> LimbOf(a, i) - LimbOf(b, i)])
RECURSIVE Products(_, _, _, _)
Products(a, b, k, i) == IF i = 0 THEN 0 ELSE LimbOf(a, i) * LimbOf(b, k + 1 - i) + Products(a, b, k, i - 1)
Times(a, b) == Norm([k \in 1..(Len(a) + Len(b)) |-> Products(a, b, k, Len(a))])
LOne == <<1>>
Small(n) == Norm(<<n>>)
LMin(a, b) == IF Less(b, a) THEN b ELSE a
=============================================================================
