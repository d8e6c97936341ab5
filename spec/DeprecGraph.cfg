SPECIFICATION MSpec
VIEW GView
CHECK_DEADLOCK FALSE
CONSTRAINTS Small
ACTION_CONSTRAINT GLog
CONSTANTS
  Start <- DeStart
  Fails <- DeFails
  Apply <- DeApply
  Events <- DeEvents
  Cfgs <- DeCfgs
  HStart <- DeHStart
  HNext <- DeHNext
  MaxDepth = 30
  Mods <- MCMods
  MaxSeen = 1

