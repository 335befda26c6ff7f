SPECIFICATION MCSpec
CONSTANTS Bytes = {0, 1, 64, 127, 128, 200, 255}
 MaxLen = 4
INVARIANTS Whole RoundTrip Noise Residue
CHECK_DEADLOCK FALSE
