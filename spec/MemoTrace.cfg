SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- MeStart
  Fails <- MeFails
  Apply <- MeApply
  Tag <- MeTag
