SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
CONSTRAINTS Small
CONSTANTS
  Start <- DeStart
  Fails <- DeFails
  Apply <- DeApply
  Events <- DeEvents
  Cfgs <- DeCfgs
  HStart <- DeHStart
  HNext <- DeHNext
  MaxDepth = 30
  Mods <- MCMods
  MaxSeen = 1
INVARIANTS NeverBoth
PROPERTIES EveryTime
