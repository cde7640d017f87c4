SPECIFICATION Spec
CONSTANTS
 Obl <- AllObl
 Base = 3
 DW = 9
 L = 2
 Faults = TRUE
 Variant = "none"
 OpsUsed = {"+", "-", "*", "/"}
INVARIANTS Correct Failed DigitsLegal OtherUntouched DivisionLoop DoublingLoop ColumnLoop CarryIsBit CompareIsOrder
PROPERTY Returns
CHECK_DEADLOCK FALSE
