SPECIFICATION MCSpec
INVARIANTS AtMostOnce Delivered NoErrorLost
