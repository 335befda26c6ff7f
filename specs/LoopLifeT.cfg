SPECIFICATION Spec
CONSTANTS Ops = {1, 2, 3, 4, 5, 6}
          Stoppers = {1, 2, 3}
          Again = TRUE
INVARIANTS EndedMeansDone OnceOnly
PROPERTIES EveryOutcome EndReturns
CHECK_DEADLOCK FALSE
