SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- PfStart
  Fails <- PfFails
  Apply <- PfApply
  Tag <- PfTag
