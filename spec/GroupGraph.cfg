SPECIFICATION MSpec
VIEW GView
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT GLog
CONSTANTS
  Start <- GrStart
  Fails <- GrFails
  Apply <- GrApply
  Events <- GrEvents
  Cfgs <- GrCfgs
  HStart <- GrHStart
  HNext <- GrHNext
  MaxDepth = 30
  ObjSets <- MCObjs1
  MaxLen = 2
  MaxGroups = 2
  Vals <- MCOne
  Keys <- MCKeys
  Likes <- MCBoth
  MapNewMax = 2
  SliceArgs <- MCNoArgs

