SPECIFICATION MSpec
VIEW GView
CHECK_DEADLOCK FALSE
CONSTRAINTS MDepth
ACTION_CONSTRAINT GLog
CONSTANTS
  Start <- ZnStart
  Fails <- ZnFails
  Apply <- ZnApply
  Events <- ZnEvents
  Cfgs <- ZnCfgs
  HStart <- ZnHStart
  HNext <- ZnHNext
  MaxDepth = 3
  Starts <- StG
  StepsOf <- SpG
  Lens <- LnG
  Looks <- LkG
  Stops <- SoG
  MaxRegs = 2
  Finds <- FG
  Limits <- Li
