SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- ChStart
  Fails <- ChFails
  Apply <- ChApply
  Tag <- ChTag
