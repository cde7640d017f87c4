------------------------------ MODULE MCIntType ------------------------------
(* The word arithmetic of IntType.tla against TLC's integers: one-byte      *)
(* words exhaustively (both definitions), two-byte words on boundary values,*)
(* and algebraic laws on eight-byte words.                                  *)
EXTENDS IntType, TLC
VARIABLES x, y
Val(s) == ToNat(256, s)
Small == {0, 1, 2, 3, 127, 128, 254, 255}
(* the left operand is an initial state, the right one a step: TLC computes *)
(* successors in parallel                                                   *)
Init ==
    /\ mem = <<>> /\ y = <<>>
    /\ \/ w = 1 /\ x \in [1..1 -> 0..255]
       \/ w = 2 /\ x \in [1..2 -> Small]
       \/ w = 8 /\ x \in [1..8 -> {0, 255}]
Next == /\ y = <<>>
        /\ y' \in CASE w = 1 -> [1..1 -> 0..255]
                    [] w = 2 -> [1..2 -> Small]
                    [] w = 8 -> [1..8 -> {1, 128}]
        /\ UNCHANGED <<mem, w, x>>
Spec == Init /\ [][Next]_<<mem, w, x, y>>
M == 256 ^ w
Bytes ==
    w = 1 => /\ \A op \in Arith : Defined(op, x, y) => BinaryWord(op, x, y) = <<ByteOp(op, x[1], y[1])>>
             /\ \A op \in Tests : Compared(op, x, y) = ByteTest(op, x[1], y[1])
             /\ \A op \in {"!", "+", "-", "~"} : UnaryWord(op, x) = <<ByteUnary(op, x[1])>>
TwoBytes ==
    w = 2 => LET a == Val(x)  b == Val(y)
             IN  /\ Val(Sum(x, y)) = (a + b) % M
                 /\ Val(Diff(x, y)) = (a - b) % M
                 /\ (a < 32768 /\ b < 65536) => Val(Prod(x, y)) = (a * b) % M
                 /\ b # 0 => /\ Val(BinaryWord("/", x, y)) = a \div b
                             /\ Val(BinaryWord("%", x, y)) = a % b
                 /\ Val(BinaryWord("&", x, y)) = (a & b)
                 /\ Val(BinaryWord("|", x, y)) = (a | b)
                 /\ Val(BinaryWord("^", x, y)) = (a ^^ b)
                 /\ b < 16 => /\ Val(ShiftR(x, b)) = a \div 2 ^ b
                              /\ a < 32768 => Val(ShiftL(x, b)) = (a * 2 ^ b) % M
                 /\ Val(UnaryWord("~", x)) = 65535 - a
                 /\ Compared("<", x, y) = (a < b)
Laws ==
    /\ IsWord(Sum(x, y)) /\ IsWord(Prod(x, y))
    /\ Diff(Sum(x, y), y) = x
    /\ Sum(x, UnaryWord("-", x)) = Zero
    /\ UnaryWord("~", x) = Diff(UnaryWord("-", x), One)
    /\ Prod(x, Sum(y, One)) = Sum(Prod(x, y), x)
    /\ ~IsZeroSeq(y) => Sum(Prod(BinaryWord("/", x, y), y), BinaryWord("%", x, y)) = x
    /\ Sum(BinaryWord("^", x, y), BinaryWord("&", x, y)) = BinaryWord("|", x, y)
    /\ ShiftL(x, 3) = Prod(x, Low(<<8>>))
    /\ ShiftR(x, 9 % (8 * w)) = Low(DivModSeq(256, x, Pow2(9 % (8 * w)))[1])
Inv == y # <<>> => (Bytes /\ TwoBytes /\ Laws)
=============================================================================
