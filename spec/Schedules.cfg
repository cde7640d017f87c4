SPECIFICATION Spec
INVARIANT Emit
CONSTANT Sizes <- SizesDef
CHECK_DEADLOCK FALSE
