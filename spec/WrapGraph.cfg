SPECIFICATION MSpec
VIEW GView
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT GLog
CONSTANTS
  Start <- WrStart
  Fails <- WrFails
  Apply <- WrApply
  Events <- WrEvents
  Cfgs <- WrCfgs
  HStart <- WrHStart
  HNext <- WrHNext
  MaxDepth = 6
  MaxN = 2
  SrcStreams <- MCSrc
  MaxHist = 4
