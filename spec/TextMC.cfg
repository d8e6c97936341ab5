SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
CONSTRAINTS MDepth HistBound
CONSTANTS
  Start <- TxStart
  Fails <- TxFails
  Apply <- TxApply
  Events <- TxEvents
  Cfgs <- TxCfgs
  HStart <- TxHStart
  HNext <- TxHNext
  MaxDepth = 6
  MaxN = 3
  MaxHist = 7
  Nums <- MCNums
  Toks <- MCToks
  SepStreams <- MCSeps
INVARIANTS Letters Batches Enough
