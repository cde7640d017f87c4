SPECIFICATION Spec
CONSTANTS
 Obl <- AllObl
 Base = 2
 L = 2
 Regs = {1, 2}
 Calls = {"cmpd", "bin", "sto", "copy", "move", "cmp", "print", "query", "idx", "ctor", "edit", "setk"}
CONSTRAINT Small
VIEW PoolView
INVARIANTS TypeOK Arithmetic OrderIsInts OrderLaws Transitive Laws TextInjective EditsUndo
CHECK_DEADLOCK FALSE
