SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
CONSTRAINTS MDepth
INVARIANTS Same Next1
PROPERTIES Answers
CONSTANTS
  Start <- RaStart
  Fails <- RaFails
  Apply <- RaApply
  Events <- RaEvents
  Cfgs <- RaCfgs
  HStart <- RaHStart
  HNext <- RaHNext
  MaxDepth = 4
  Day = 4
  Wraps <- B
  Starts <- StG
  StepsOf <- SpG
  Lens <- LnG
  Args <- AgG
  Ks <- KkG
  MaxRegs = 2
  Finds <- F2
  Limits <- AgG
