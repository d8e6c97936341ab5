SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- DiStart
  Fails <- DiFails
  Apply <- DiApply
  Events <- DiEvents
  Cfgs <- DiCfgs
  HStart <- DiHStart
  HNext <- DiHNext
  MaxDepth = 30
  Params <- MCParams
  LnFact <- MCLnFact
  LnOf <- MCLnOf
INVARIANTS PoissonRatio GaussianShape Peak Negative
