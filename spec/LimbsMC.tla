------------------------------- MODULE LimbsMC ------------------------------
(* The arithmetic of Limbs against TLC's own.                                *)
EXTENDS Limbs
CONSTANT Upto
VARIABLES x, y
RECURSIVE Of(_)
Of(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Of(n \div Base)
Init == x \in 0..Upto /\ y \in 0..Upto
Next == UNCHANGED <<x, y>>
Spec == Init /\ [][Next]_<<x, y>>
Arithmetic ==
  /\ Plus(Of(x), Of(y)) = Of(x + y)
  /\ Minus(Of(x), Of(y)) = Of(IF x >= y THEN x - y ELSE 0)
  /\ Times(Of(x), Of(y)) = Of(x * y)
  /\ Less(Of(x), Of(y)) = (x < y)
  /\ AtMost(Of(x), Of(y)) = (x <= y)
=============================================================================
