SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- FaStart
  Fails <- FaFails
  Apply <- FaApply
  Tag <- FaTag
  Base = 10000
