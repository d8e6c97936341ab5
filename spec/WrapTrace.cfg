SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- WrStart
  Fails <- WrFails
  Apply <- WrApply
  Tag <- WrTag
