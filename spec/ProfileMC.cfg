SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
CONSTRAINTS MDepth HistBound
CONSTANTS
  Start <- McStart
  Fails <- PfFails
  Apply <- PfApply
  Events <- McEvents
  Cfgs <- GrCfgs
  HStart <- McHStart
  HNext <- McHNext
  Starts = 1
  MaxDepth = 5
  MaxDocs = 3
INVARIANTS InOrder Keys Matches SameValue
