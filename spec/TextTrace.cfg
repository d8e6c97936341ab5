SPECIFICATION TSpec
VIEW TView
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- TxStart
  Fails <- TxFails
  Apply <- TxApply
  Tag <- TxTag
