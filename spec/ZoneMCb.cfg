SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
CONSTRAINTS MDepth
INVARIANTS Same
PROPERTIES Answers
CONSTANTS
  Start <- ZnStart
  Fails <- ZnFails
  Apply <- ZnApply
  Events <- ZnEvents
  Cfgs <- ZnCfgs
  HStart <- ZnHStart
  HNext <- ZnHNext
  MaxDepth = 4
  Starts <- StE
  StepsOf <- SpE
  Lens <- LnE
  Looks <- Lk
  Stops <- So
  MaxRegs = 2
  Finds <- F3
  Limits <- Li
