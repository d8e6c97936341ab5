SPECIFICATION MSpec
VIEW GView
CHECK_DEADLOCK FALSE
CONSTRAINTS MDepth
ACTION_CONSTRAINT GLog
CONSTANTS
  Start <- TrMcStart
  Fails <- TrFails
  Apply <- TrApply
  Events <- TrEvents
  Cfgs <- TrCfgs
  HStart <- TrHStart
  HNext <- TrHNext
  MaxDepth = 6
  Vs <- McVs
  Targets <- GrTargets
  CallIds <- McCalls
