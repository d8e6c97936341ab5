SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
CONSTRAINTS MDepth HistBound
CONSTANTS
  Start <- FxStart
  Fails <- FxFails
  Apply <- FxApply
  Events <- FxEvents
  Cfgs <- FxCfgs
  HStart <- FxHStart
  HNext <- FxHNext
  MaxDepth = 6
  MaxN = 4
  MaxLen = 3
  MaxHist = 7
  Vals <- MCVals
INVARIANTS InOrder InPlace
PROPERTIES RestartsAfterCall FailedIsNoOp
