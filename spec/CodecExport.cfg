CONSTANT Sizes <- UsedSizes
INIT Init
NEXT Next
INVARIANTS Bijective Lossless SameDecoder
POSTCONDITION Export
CHECK_DEADLOCK FALSE
