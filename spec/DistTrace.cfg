SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- DiStart
  Fails <- DiFails
  Apply <- DiApply
  Tag <- DiTag
