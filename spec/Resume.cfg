SPECIFICATION RSpec
CONSTANTS
  MaxSteps = 3
  T1s <- MCT1r
  T2s = {256}
  Dt0Bs = {32, 160}
  Y0s <- Y3
  Dt0s = {64, 300}
  Dts = {64, 160}
  Keeps = {TRUE, FALSE}
  Gaps = {0, 1}
  CFails = {FALSE}
  BadWidths = {0}
  Subs <- NoSubs
  TsChoices <- NoTs
  EvCfgs <- NoEv
  RootFind = FALSE
  DenseTimes <- MCNoDense
  Tag = "resume"
INVARIANTS JoinedTiling JoinedRollback REmit
