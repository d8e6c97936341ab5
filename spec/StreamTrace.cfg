SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- StStart
  Fails <- StFails
  Apply <- StApply
  Tag <- StTag
