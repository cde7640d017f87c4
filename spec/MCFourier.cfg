SPECIFICATION Spec
INVARIANT Inv
CONSTANTS
  M = 8
  Digit = {0, 1, 3}
  MaxLen = 4
  Slack = 1
CHECK_DEADLOCK FALSE
