SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
CONSTRAINTS MDepth RunBound
CONSTANTS
  Start <- TrMcStart
  Fails <- TrFails
  Apply <- TrApply
  Events <- TrEvents
  Cfgs <- TrCfgs
  HStart <- TrHStart
  HNext <- TrHNext
  MaxDepth = 5
  Vs <- McVs
  Targets <- McTargets
  CallIds <- McCalls
INVARIANTS Same ReadsExactly
PROPERTIES Reaches
