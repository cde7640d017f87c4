SPECIFICATION Spec
CONSTANTS Bases = {2, 3, 5, 10} MaxLen = 2 Block <- SmallBlock
INVARIANTS Roundtrip Order Sums Products Quotients Constructive
CHECK_DEADLOCK FALSE
