SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
CONSTRAINTS MDepth HistBound
CONSTANTS
  Start <- WrStart
  Fails <- WrFails
  Apply <- WrApply
  Events <- WrEvents
  Cfgs <- WrCfgs
  HStart <- WrHStart
  HNext <- WrHNext
  MaxDepth = 6
  MaxN = 2
  SrcStreams <- MCSrc
  MaxHist = 4
INVARIANTS Mapped Accepted Placed
