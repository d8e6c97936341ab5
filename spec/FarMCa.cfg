SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
CONSTRAINTS MDepth
INVARIANTS Lengths Values
PROPERTIES Answers
CONSTANTS
  Base = 2
  Start <- FaStart
  Fails <- FaFails
  Apply <- FaApply
  Events <- FaEvents
  Cfgs <- FaCfgs
  HStart <- FaHStart
  HNext <- FaHNext
  MaxDepth = 3
  Day = 4
  Starts <- St
  StepsOf <- Sp
  Lens <- Ln
  Args <- Ag
  Ks <- Kk
  MaxRegs = 2
  Finds <- F1
