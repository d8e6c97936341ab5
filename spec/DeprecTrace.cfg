SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- DeStart
  Fails <- DeFails
  Apply <- DeApply
  Tag <- DeTag
