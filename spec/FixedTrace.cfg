SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- FxStart
  Fails <- FxFails
  Apply <- FxApply
  Tag <- FxTag
