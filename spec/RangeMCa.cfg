SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
CONSTRAINTS MDepth
INVARIANTS Same Next1
PROPERTIES Answers
CONSTANTS
  Start <- RaStart
  Fails <- RaFails
  Apply <- RaApply
  Events <- RaEvents
  Cfgs <- RaCfgs
  HStart <- RaHStart
  HNext <- RaHNext
  MaxDepth = 4
  Day = 4
  Wraps <- B
  Starts <- St
  StepsOf <- Sp
  Lens <- Ln
  Args <- Ag
  Ks <- Kk
  MaxRegs = 2
  Finds <- F1
  Limits <- AgG
