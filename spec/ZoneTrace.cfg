SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- ZnStart
  Fails <- ZnFails
  Apply <- ZnApply
  Tag <- ZnTag
