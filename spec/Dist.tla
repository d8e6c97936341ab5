-------------------------------- MODULE Dist --------------------------------
(* Choices weighted by a distribution: C23.                                  *)
(*                                                                           *)
(* Weights are given by their natural logarithms, in millionths, since the   *)
(* logarithms of the two distributions are polynomials:                      *)
(*   Poisson:   x ln(mu) - mu - ln(x!)                                       *)
(*   Gaussian:  -(x - mu)^2 / (2 sigma^2) - ln(sigma) - ln(sqrt(2 pi))       *)
(* The parameters mu and sigma are in tenths.  Logarithms of factorials come *)
(* with the configuration of a trace, those of parameters with the event.    *)
(* A weight of 0 (or one too small to tell from it) is Tiny.                 *)
(* State: the emitter's weights, and whether the next event is compared with *)
(* that of an ordinary choice emitter with these weights.                    *)
EXTENDS Common

Million == 1000000
Tiny == -2000000000
LnSqrt2Pi == 918939
Negligible == -700 * Million    (* below, floating point loses precision *)

DiStart(c) == [lnfact |-> c.lnfact, n |-> 0, on |-> FALSE]

(* a/b in millionths, for 0 <= a and 0 < b < 2 million.                      *)
Millionths(a, b) ==
  LET q == a \div b
      r == a % b
      t == (r * 1000) \div b
      u == (((r * 1000) % b) * 1000) \div b
  IN IF q > 1500 THEN -Tiny ELSE q * Million + t * 1000 + u

LnPoisson(s, x, mu, lnmu) == x * lnmu - mu * (Million \div 10) - s.lnfact[x]
LnGaussian(x, mu, sigma, lnsigma) ==
  LET d == 10 * x - mu
      e == Millionths(d * d, 2 * sigma * sigma)
  IN IF e >= -Tiny THEN Tiny ELSE 0 - e - lnsigma - LnSqrt2Pi
LnWeight(s, e, x) == IF e.dist = "poisson" THEN LnPoisson(s, x, e.mu, e.lnmu)
                     ELSE LnGaussian(x, e.mu, e.sigma, e.lnsigma)

Abs(x) == IF x < 0 THEN 0 - x ELSE x
Near(a, b) == Abs(a - b) <= 1000             (* one in a thousand *)
(* w: what the implementation has, as [ln, floor (whether it is the floor)]. *)
Right(w, ln, floor) ==
  IF floor = Tiny
  THEN \/ ln > Negligible /\ Near(w.ln, ln)
       \/ ln <= Negligible /\ w.ln <= Negligible + Million
  ELSE \/ w.floor /\ ln <= floor + 1000
       \/ ~w.floor /\ ln >= floor - 1000 /\ Near(w.ln, ln)

Named(e) == e.dist \in {"poisson", "gaussian"}
DiApply(s, e) ==
  CASE e.op = "new" -> [s EXCEPT !.n = e.n, !.on = e.err = ""]
    [] OTHER -> s
Clamped(x, lo, hi) == IF lo # <<>> /\ x < lo[1] THEN lo[1]
                      ELSE IF hi # <<>> /\ x > hi[1] THEN hi[1] ELSE x

DiClauses(s, e) ==
  CASE e.op = "new" ->
         <<<<"C23", "any number of items works", e.err = e.err2>>,
           <<"C23", "as many weights as items", e.err # "" \/ Len(e.ws) = e.n>>,
           <<"C23", "weights are the values of the distribution, or the floor",
             e.err # "" \/ Len(e.ws) # e.n
             \/ \A x \in 1..e.n : Right(e.ws[x], LnWeight(s, e, x), e.lnfloor)>>,
           <<"C23", "settings are those of a choice with these weights", e.look = e.look2>>>>
    [] e.op = "fn" ->
         <<<<"C23", "values of the distribution",
             e.err = "" /\ Right(e.ws[1], LnWeight(s, e, e.n), Tiny)>>>>
    [] e.op = "clamp" ->
         <<<<"C23", "numbers are limited as given",
             e.err = "" /\ e.res = Clamped(e.n, e.lo, e.hi)>>>>
    [] OTHER ->
         <<<<"C23", "values are those of a choice with these weights",
             e.err = e.err2 /\ e.out = e.out2>>,
           <<"C23", "settings are those of a choice with these weights", e.look = e.look2>>>>
DiFails(s, e) == Failing(DiClauses(s, e))
DiTag(s, e) ==
  e.op \o (IF e.op \in {"new", "fn"}
           THEN "/" \o e.dist
                \o (IF e.op = "new" /\ e.lnfloor # Tiny THEN "/floor" ELSE "")
                \o (IF e.op = "new" /\ e.n > 170 THEN "/many" ELSE "")
           ELSE IF e.op = "call" /\ e.err # "" THEN "/" \o e.err ELSE "")
=============================================================================
