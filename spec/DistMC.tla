------------------------------- MODULE DistMC -------------------------------
(* The formulas of Dist, against other properties of the distributions, for  *)
(* every number of items up to 20.  Each step adds an item.                  *)
EXTENDS MCBase, Dist
CONSTANTS Params, LnFact, LnOf       \* LnOf[k]: of k, in millionths

DiCfgs == {[lnfact |-> LnFact]}
DiNew(p, n) == [op |-> "new", dist |-> p.dist, n |-> n, mu |-> p.mu, sigma |-> p.sigma,
                lnmu |-> p.lnmu, lnsigma |-> p.lnsigma, lnfloor |-> Tiny, ws |-> <<>>, err |-> "",
                err2 |-> "", look |-> <<>>, look2 |-> <<>>, out |-> <<>>, out2 |-> <<>>]
Weighted(s, e) == [e EXCEPT !.ws = [x \in 1..e.n |-> [ln |-> LnWeight(s, e, x), floor |-> FALSE]]]
DiEvents(s) == {Weighted(s, DiNew(p, s.n + 1)) : p \in IF s.n < Len(LnFact) THEN Params ELSE {}}
DiHStart(c) == [e |-> DiNew(CHOOSE p \in Params : TRUE, 0)]
DiHNext(h, s, e) == [e |-> e]
L(x) == hist.e.ws[x].ln
N == hist.e.n
Mu == hist.e.mu
Close(a, b) == Abs(a - b) <= 5

(* p(x + 1) / p(x) = mu / (x + 1)                                            *)
PoissonRatio == hist.e.dist = "poisson" =>
  \A x \in 1..(N - 1) : Close(L(x + 1) - L(x), hist.e.lnmu - LnOf[x + 1])
(* Items at the same distance from mu have the same weight; second           *)
(* differences are all -1 / sigma^2.                                         *)
GaussianShape == hist.e.dist = "gaussian" =>
  /\ \A x, y \in 1..N : 10 * (x + y) = 2 * Mu => L(x) = L(y)
  /\ \A x \in 1..(N - 2) :
       L(x) > Tiny /\ L(x + 2) > Tiny =>
       Close(L(x + 2) - 2 * L(x + 1) + L(x), 0 - Millionths(100, hist.e.sigma * hist.e.sigma))
(* The further from mu, the smaller the weight.                              *)
Peak == \A x \in 1..(N - 1) :
          /\ 10 * (x + 1) <= Mu => L(x + 1) >= L(x) - 5
          /\ 10 * x >= Mu => L(x + 1) <= L(x) + 5
Negative == \A x \in 1..N : hist.e.dist = "poisson" => L(x) < 0
=============================================================================
