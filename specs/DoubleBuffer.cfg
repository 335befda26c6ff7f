SPECIFICATION Spec
CONSTANTS MaxN = 7
 Sizes = {2, 3, 4}
INVARIANTS Refines EndIsTrue Bounded
PROPERTIES TakenIsRight Answered
CHECK_DEADLOCK FALSE
