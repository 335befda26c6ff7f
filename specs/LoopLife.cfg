SPECIFICATION Spec
CONSTANTS Ops = {1, 2, 3, 4}
          Stoppers = {1, 2}
          Again = TRUE
INVARIANTS EndedMeansDone OnceOnly
PROPERTIES EveryOutcome EndReturns
CHECK_DEADLOCK FALSE
