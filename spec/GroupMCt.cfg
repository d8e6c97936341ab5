SPECIFICATION MSpec
VIEW MView
CHECK_DEADLOCK FALSE

CONSTANTS
  Start <- GrStart
  Fails <- GrFails
  Apply <- GrApply
  Events <- GrEvents
  Cfgs <- GrCfgs
  HStart <- GrHStart
  HNext <- GrHNext
  MaxDepth = 30
  ObjSets <- MCObjs
  MaxLen = 3
  MaxGroups = 2
  Vals <- MCVals
  Keys <- MCKeys
  Likes <- MCBoth
  MapNewMax = 3
  SliceArgs <- MCArgs
INVARIANTS Whole
PROPERTIES NothingAppears SetsMembersOnly RunsMembersOnly OthersStay FailedIsNoOp
