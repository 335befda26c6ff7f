SPECIFICATION MCSpec
CONSTANTS Hns <- SmallHns
 Most = 2
 Durs = {0, 2}
 Offs = {0, 2}
 Scales = {3, 17}
 PerSec = 10
 MaxT = 7
INVARIANTS Once Whole Entry Lookup Own
CHECK_DEADLOCK FALSE
