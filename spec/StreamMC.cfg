SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
CONSTRAINTS MDepth StBound
CONSTANTS
  Start <- StStart
  Fails <- StFails
  Apply <- StApply
  Events <- StEvents
  Cfgs <- StCfgs
  HStart <- StHStart
  HNext <- StHNext
  MaxDepth = 6
  MaxInst = 2
  MaxLen = 4
  MaxN = 2
  Vals <- MCVals
INVARIANTS OneStream Exact
