SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- TrStart
  Fails <- TrFails
  Apply <- TrApply
  Tag <- TrTag
