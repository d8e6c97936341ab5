SPECIFICATION MSpec
VIEW GView
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT GLog
CONSTRAINT MDepth
CONSTANTS
  Start <- McStart
  Fails <- PfFails
  Apply <- PfApply
  Events <- McEvents
  Cfgs <- GrCfgs
  HStart <- NoH
  HNext <- NoHN
  Starts = 1
  MaxDepth = 5
  MaxDocs = 3
