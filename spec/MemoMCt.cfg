SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
CONSTRAINTS MDepth
CONSTANTS
  Start <- MeStart
  Fails <- MeFails
  Apply <- MeApply
  Events <- MeEvents
  Cfgs <- MeCfgs
  HStart <- MeHStart
  HNext <- MeHNext
  MaxDepth = 5
  MaxInst = 2
  Seeds <- MCSeeds
  Sets <- MCSets
  Toks <- MCToks
  Outs <- MCOuts
INVARIANTS Reproducible Different RejectedNothing Exact
