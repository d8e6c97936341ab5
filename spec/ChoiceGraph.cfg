SPECIFICATION MSpec
VIEW GView
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT GLog
CONSTANTS
  Start <- ChStart
  Fails <- ChFails
  Apply <- ChApply
  Events <- ChEvents
  Cfgs <- ChCfgs
  HStart <- ChHStart
  HNext <- ChHNext
  MaxDepth = 6
  MaxN = 3
  ItemLists <- MCItems
  WeightLists <- MCWeights
