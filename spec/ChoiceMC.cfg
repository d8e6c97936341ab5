SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE
CONSTRAINT MDepth
CONSTANTS
  Start <- ChStart
  Fails <- ChFails
  Apply <- ChApply
  Events <- ChEvents
  Cfgs <- ChCfgs
  HStart <- ChHStart
  HNext <- ChHNext
  MaxDepth = 6
  MaxN = 3
  ItemLists <- MCItems
  WeightLists <- MCWeights
INVARIANTS EachAtMostOnce UniquePerCall SettingsAgree NumbersFit ZeroWeightLast NeverZeroWeight
PROPERTIES FailedIsNoOp
