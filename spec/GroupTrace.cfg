SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- GrStart
  Fails <- GrFails
  Apply <- GrApply
  Tag <- GrTag
