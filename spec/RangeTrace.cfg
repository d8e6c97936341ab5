SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- RaStart
  Fails <- RaFails
  Apply <- RaApply
  Tag <- RaTag
