SPECIFICATION MSpec
VIEW GView
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT GLog
CONSTANTS
  Start <- TxStart
  Fails <- TxFails
  Apply <- TxApply
  Events <- TxEvents
  Cfgs <- TxCfgs
  HStart <- TxHStart
  HNext <- TxHNext
  MaxDepth = 6
  MaxN = 3
  MaxHist = 7
  Nums <- MCNums
  Toks <- MCToks
  SepStreams <- MCSeps
