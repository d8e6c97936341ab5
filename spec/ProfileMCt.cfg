SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
CONSTRAINTS MDepth HistBound
CONSTANTS
  Start <- McStart
  Fails <- PfFails
  Apply <- PfApply
  Events <- McEvents
  Cfgs <- McCfgs
  HStart <- McHStart
  HNext <- McHNext
  Starts = 1
  MaxDepth = 6
  MaxDocs = 4
INVARIANTS InOrder Keys Matches SameValue
