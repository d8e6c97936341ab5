SPECIFICATION MSpec
VIEW GView
CHECK_DEADLOCK FALSE
CONSTRAINTS MDepth
ACTION_CONSTRAINT GLog
CONSTANTS
  Start <- RaStart
  Fails <- RaFails
  Apply <- RaApply
  Events <- RaEvents
  Cfgs <- RaCfgs
  HStart <- RaHStart
  HNext <- RaHNext
  MaxDepth = 3
  Day = 4
  Wraps <- B
  Starts <- StG
  StepsOf <- SpG
  Lens <- LnG
  Args <- AgG
  Ks <- KkG
  MaxRegs = 2
  Finds <- FG
  Limits <- Li
