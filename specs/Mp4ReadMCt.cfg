SPECIFICATION MCSpec
CONSTANTS Hns <- SmallHns
 Most = 3
 Durs = {0, 2}
 Offs = {0, 2}
 Scales = {17}
 PerSec = 10
 MaxT = 7
INVARIANTS Once Whole Entry Lookup Own
CHECK_DEADLOCK FALSE
