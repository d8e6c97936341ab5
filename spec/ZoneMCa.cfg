SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
CONSTRAINTS MDepth
INVARIANTS Same
PROPERTIES Answers
CONSTANTS
  Start <- ZnStart
  Fails <- ZnFails
  Apply <- ZnApply
  Events <- ZnEvents
  Cfgs <- ZnCfgs
  HStart <- ZnHStart
  HNext <- ZnHNext
  MaxDepth = 3
  Starts <- St
  StepsOf <- Sp
  Lens <- Ln
  Looks <- Lk
  Stops <- So
  MaxRegs = 1
  Finds <- F1
  Limits <- Li
