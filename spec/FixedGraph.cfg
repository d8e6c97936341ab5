SPECIFICATION MSpec
VIEW GView
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT GLog
CONSTANTS
  Start <- FxStart
  Fails <- FxFails
  Apply <- FxApply
  Events <- FxEvents
  Cfgs <- FxCfgs
  HStart <- FxHStart
  HNext <- FxHNext
  MaxDepth = 6
  MaxN = 4
  MaxLen = 3
  MaxHist = 7
  Vals <- MCVals
