------------------------------ MODULE LoopProofs ------------------------------
(***************************************************************************)
(* The digit loops of AlgBigNum.tla and the column walk of BigNat.tla, for *)
(* every base, every word and every length: proved with tlapm, where TLC   *)
(* explores small ones.                                                    *)
(*                                                                         *)
(* A loop is a state machine over the values of the digits it has seen so  *)
(* far: p is the weight of the next digit (a power of B), a and b the      *)
(* values of the operands' digits below it, r that of the digits written,  *)
(* c the carry (or borrow).  B is the base, DW what a double word can      *)
(* hold.                                                                   *)
(***************************************************************************)
EXTENDS Integers, TLAPS
CONSTANTS B, DW
ASSUME Machine == B \in Nat /\ B >= 2 /\ DW \in Nat /\ DW >= 2 * B

Digit == 0..(B - 1)
VARIABLES a, b, r, c, p
vars == <<a, b, r, c, p>>
Fresh == a = 0 /\ b = 0 /\ r = 0 /\ c = 0 /\ p = 1

-------------------------------------------------------------------------------
(* arithmetic *)
LEMMA DivMod == \A s \in Int : s = B * (s \div B) + (s % B) /\ s % B \in Digit /\ s \div B \in Int
  BY Machine DEF Digit
LEMMA NatMult == \A u, v \in Nat : u * v \in Nat
  OBVIOUS
LEMMA IntMult == \A u, v \in Int : u * v \in Int
  OBVIOUS
LEMMA Mono == \A u, v, w \in Nat : u <= v => u * w <= v * w
  OBVIOUS
LEMMA MonoInt == \A u, v \in Int, w \in Nat : u <= v => w * u <= w * v
  OBVIOUS
LEMMA DigitNat == \A x \in Digit : x \in Nat /\ x <= B - 1
  BY Machine DEF Digit

LEMMA Remainder == ASSUME NEW k \in Int, NEW d \in Digit PROVE (k * B + d) % B = d /\ (k * B + d) \div B = k
  <1> DEFINE s == k * B + d
             q == s \div B
             m == s % B
  <1>1. s \in Int /\ s = B * q + m /\ m \in Digit /\ q \in Int BY DivMod, Machine DEF Digit
  <1>2. B * q + m = k * B + d BY <1>1
  <1>3. ~(q < k)
    <2> SUFFICES ASSUME q < k PROVE FALSE OBVIOUS
    <2>0. q <= k - 1 BY <1>1
    <2>1. B * q <= B * (k - 1) BY <2>0, <1>1, MonoInt, Machine
    <2>2. B * (k - 1) = k * B - B BY Machine
    <2>. HIDE DEF q, m
    <2>. QED BY <1>1, <1>2, <2>1, <2>2, Machine DEF Digit
  <1>4. ~(q > k)
    <2> SUFFICES ASSUME q > k PROVE FALSE OBVIOUS
    <2>0. k + 1 <= q BY <1>1
    <2>1. B * (k + 1) <= B * q BY <2>0, <1>1, MonoInt, Machine
    <2>2. B * (k + 1) = k * B + B BY Machine
    <2>. HIDE DEF q, m
    <2>. QED BY <1>1, <1>2, <2>1, <2>2, Machine DEF Digit
  <1>5. q = k BY <1>1, <1>3, <1>4
  <1>6. m = d
    <2>1. B * q = k * B BY <1>5, <1>1, Machine
    <2>. HIDE DEF q, m
    <2>. QED BY <2>1, <1>1, <1>2, Machine DEF Digit
  <1>. QED BY <1>5, <1>6

LEMMA Small == ASSUME NEW s \in Nat, s < DW PROVE s % DW = s
  BY Machine

(* a number below the weight, extended by a digit, is below the next weight *)
LEMMA Weight == ASSUME NEW v \in Nat, NEW q \in Nat, NEW d \in Digit, v < q PROVE v + d * q < q * B /\ v + d * q \in Nat
  <1>1. d * q <= (B - 1) * q BY Mono, Machine DEF Digit
  <1>2. (B - 1) * q + q = q * B BY Machine
  <1>3. d * q \in Nat /\ (B - 1) * q \in Int /\ q * B \in Int BY Machine, DigitNat, NatMult
  <1> DEFINE X == d * q
             Y == (B - 1) * q
             Z == q * B
  <1>4. X <= Y /\ Y + q = Z /\ X \in Nat /\ Y \in Int /\ Z \in Int BY <1>1, <1>2, <1>3
  <1>. HIDE DEF X, Y, Z
  <1>5. v + X < Z /\ v + X \in Nat BY <1>4
  <1>. QED BY <1>5 DEF X, Z
LEMMA NextWeight == ASSUME NEW q \in Nat, q >= 1 PROVE q * B \in Nat /\ q * B >= 1
  BY Machine

(* The one fact all column sums rest on: S is the sum of the columns below  *)
(* weight q, t the next column; what is written is d, what is carried k.    *)
LEMMA Column ==
    ASSUME NEW S \in Int, NEW v \in Int, NEW k0 \in Int, NEW q \in Nat, NEW t \in Int, NEW d \in Int, NEW k \in Int,
           S = v + k0 * q, t + k0 = d + k * B
    PROVE  S + t * q = (v + d * q) + k * (q * B)
  <1>1. (t + k0) * q = (d + k * B) * q OBVIOUS
  <1>2. (t + k0) * q = t * q + k0 * q OBVIOUS
  <1>3. (d + k * B) * q = d * q + k * (q * B) BY Machine
  <1> DEFINE T == t * q
             K == k0 * q
             D == d * q
             E == k * (q * B)
  <1>4. T \in Int /\ K \in Int /\ D \in Int /\ E \in Int BY IntMult, Machine
  <1>5. T + K = D + E /\ S = v + K BY <1>1, <1>2, <1>3
  <1>. HIDE DEF T, K, D, E
  <1>6. S + T = (v + D) + E BY <1>4, <1>5
  <1>. QED BY <1>6 DEF T, D, E

-------------------------------------------------------------------------------
(* Addition: abs_val_add.  When the digits of both operands are used up and *)
(* no carry is left, r = a + b.                                             *)
AddStep == \E x, y \in Digit : \E s \in Nat : \E d \in Digit :
    /\ s = (x + y + c) % DW
    /\ d = IF s > B - 1 THEN s % B ELSE s
    /\ c' = IF s > B - 1 THEN 1 ELSE 0
    /\ a' = a + x * p /\ b' = b + y * p /\ r' = r + d * p
    /\ p' = p * B
Values == /\ a \in Nat /\ b \in Nat /\ r \in Nat /\ p \in Nat /\ p >= 1
          /\ a < p /\ b < p /\ r < p
AddInv == Values /\ c \in {0, 1} /\ a + b = r + c * p

THEOREM Addition == Fresh /\ [][AddStep]_vars => [](AddInv /\ (c = 0 => r = a + b))
  <1>1. Fresh => AddInv BY DEF Fresh, AddInv, Values
  <1>2. AddInv /\ [AddStep]_vars => AddInv'
    <2> SUFFICES ASSUME AddInv, AddStep PROVE AddInv'
      BY DEF AddInv, Values, vars
    <2> PICK x \in Digit, y \in Digit, s \in Nat, d \in Digit :
        /\ s = (x + y + c) % DW
        /\ d = IF s > B - 1 THEN s % B ELSE s
        /\ c' = IF s > B - 1 THEN 1 ELSE 0
        /\ a' = a + x * p /\ b' = b + y * p /\ r' = r + d * p
        /\ p' = p * B
      BY DEF AddStep
    <2>0. x \in Nat /\ y \in Nat /\ d \in Nat /\ x <= B - 1 /\ y <= B - 1 /\ c \in Nat /\ c <= 1 /\ c' \in Nat
      BY DigitNat DEF AddInv
    <2>1. s = x + y + c
      <3>1. x + y + c < DW BY <2>0, Machine
      <3>. QED BY <3>1, <2>0, Small
    <2>2. (x + y) + c = d + c' * B
      <3>1. CASE s > B - 1
        <4>1. s - B \in Digit BY <3>1, <2>1, <2>0, Machine DEF Digit
        <4>2. (1 * B + (s - B)) % B = s - B BY <4>1, Remainder
        <4>3. 1 * B + (s - B) = s BY Machine
        <4>4. d = s - B BY <3>1, <4>2, <4>3
        <4>5. c' = 1 BY <3>1
        <4>. QED BY <4>4, <4>5, <2>1, Machine, <2>0
      <3>2. CASE ~(s > B - 1) BY <3>2, <2>1, Machine
      <3>. QED BY <3>1, <3>2
    <2>3. Values'
      BY NextWeight, Weight DEF AddInv, Values
    <2>4. (a + b) + (x + y) * p = (r + d * p) + c' * (p * B)
      <3>1. a + b \in Int /\ x + y \in Int /\ c \in Int /\ c' \in Int /\ d \in Int /\ r \in Int /\ p \in Nat /\ a + b = r + c * p
        BY <2>0 DEF AddInv, Values
      <3>. QED BY ONLY <3>1, <2>2, Column
    <2>5. a' + b' = (a + b) + (x + y) * p
      <3>1. (x + y) * p = x * p + y * p /\ x * p \in Nat /\ y * p \in Nat BY <2>0, NatMult DEF AddInv, Values
      <3>. QED BY <3>1 DEF AddInv, Values
    <2>. QED BY <2>3, <2>4, <2>5 DEF AddInv
  <1>3. AddInv => (c = 0 => r = a + b) BY DEF AddInv, Values
  <1>. QED BY <1>1, <1>2, <1>3, PTL

-------------------------------------------------------------------------------
(* Subtraction: abs_val_sub.  The difference of digits is taken in a double *)
(* word, where a negative one wraps.  When all digits are used up and a is  *)
(* not smaller than b, no borrow is left and r = a - b.                     *)
SubStep == \E x, y \in Digit : \E s \in Nat : \E d \in Digit :
    /\ s = (x - c - y) % DW
    /\ d = IF s > B - 1 THEN (s + B) % DW ELSE s
    /\ c' = IF s > B - 1 THEN 1 ELSE 0
    /\ a' = a + x * p /\ b' = b + y * p /\ r' = r + d * p
    /\ p' = p * B
SubInv == Values /\ c \in {0, 1} /\ a - b = r + (-c) * p

LEMMA Wrapped == ASSUME NEW s \in Int, s >= -B, s < 0 PROVE s % DW = DW + s
  BY Machine
THEOREM Subtraction == Fresh /\ [][SubStep]_vars => [](SubInv /\ (a >= b => c = 0 /\ r = a - b))
  <1>1. Fresh => SubInv BY DEF Fresh, SubInv, Values
  <1>2. SubInv /\ [SubStep]_vars => SubInv'
    <2> SUFFICES ASSUME SubInv, SubStep PROVE SubInv'
      BY DEF SubInv, Values, vars
    <2> PICK x \in Digit, y \in Digit, s \in Nat, d \in Digit :
        /\ s = (x - c - y) % DW
        /\ d = IF s > B - 1 THEN (s + B) % DW ELSE s
        /\ c' = IF s > B - 1 THEN 1 ELSE 0
        /\ a' = a + x * p /\ b' = b + y * p /\ r' = r + d * p
        /\ p' = p * B
      BY DEF SubStep
    <2>0. x \in Nat /\ y \in Nat /\ d \in Nat /\ x <= B - 1 /\ y <= B - 1 /\ c \in Nat /\ c <= 1 /\ c' \in {0, 1}
      BY DigitNat DEF SubInv
    <2>2. (x - y) + (-c) = d + (-c') * B
      <3> DEFINE u == x - c - y
      <3>0. u \in Int /\ u >= -B /\ u <= B - 1 BY <2>0, Machine
      <3>1. CASE u < 0
        <4>1. s = DW + u BY <3>1, <3>0, Wrapped
        <4>2. s > B - 1 BY <4>1, <3>0, Machine
        <4>3. s + B = DW + (u + B) /\ u + B \in Nat /\ u + B < DW BY <4>1, <3>0, <3>1, Machine
        <4>4. (DW + (u + B)) % DW = u + B BY <4>3, Machine
        <4>5. d = u + B /\ c' = 1 BY <4>2, <4>3, <4>4
        <4>. QED BY <4>5, <2>0, Machine
      <3>2. CASE u >= 0
        <4>1. s = u BY <3>2, <3>0, Small, Machine
        <4>2. d = u /\ c' = 0 BY <4>1, <3>0, Machine
        <4>. QED BY <4>2, <2>0, Machine
      <3>. QED BY <3>0, <3>1, <3>2
    <2>3. Values'
      BY NextWeight, Weight DEF SubInv, Values
    <2>4. (a - b) + (x - y) * p = (r + d * p) + (-c') * (p * B)
      <3>1. a - b \in Int /\ x - y \in Int /\ -c \in Int /\ -c' \in Int /\ d \in Int /\ r \in Int /\ p \in Nat /\ a - b = r + (-c) * p
        BY <2>0 DEF SubInv, Values
      <3>. QED BY ONLY <3>1, <2>2, Column
    <2>5. a' - b' = (a - b) + (x - y) * p
      <3>1. (x - y) * p = x * p - y * p /\ x * p \in Nat /\ y * p \in Nat BY <2>0, NatMult DEF SubInv, Values
      <3>. QED BY <3>1 DEF SubInv, Values
    <2>. QED BY <2>0, <2>3, <2>4, <2>5 DEF SubInv
  <1>3. SubInv => (a >= b => c = 0 /\ r = a - b)
    <2> SUFFICES ASSUME SubInv, a >= b PROVE c = 0 /\ r = a - b OBVIOUS
    <2>1. CASE c = 1
      <3>1. a - b = r - p BY <2>1 DEF SubInv, Values
      <3>. QED BY <3>1 DEF SubInv, Values
    <2>2. CASE c = 0 BY <2>2 DEF SubInv, Values
    <2>. QED BY <2>1, <2>2 DEF SubInv
  <1>. QED BY <1>1, <1>2, <1>3, PTL

-------------------------------------------------------------------------------
(* Products: the carry of mul_strassen and mul_naive.  a is the sum of the  *)
(* columns seen so far; each column is any natural number.                  *)
ProductStep == \E t \in Nat :
    /\ r' = r + ((c + t) % B) * p
    /\ c' = (c + t) \div B
    /\ a' = a + t * p /\ b' = b
    /\ p' = p * B
ProductInv == /\ a \in Nat /\ r \in Nat /\ p \in Nat /\ p >= 1 /\ c \in Nat /\ r < p
              /\ a = r + c * p
LEMMA DivNat == \A s \in Nat : s \div B \in Nat
  BY Machine
THEOREM Product == Fresh /\ [][ProductStep]_vars => [](ProductInv /\ (a < p => c = 0 /\ r = a))
  <1>1. Fresh => ProductInv BY DEF Fresh, ProductInv
  <1>2. ProductInv /\ [ProductStep]_vars => ProductInv'
    <2> SUFFICES ASSUME ProductInv, ProductStep PROVE ProductInv'
      BY DEF ProductInv, vars
    <2> PICK t \in Nat :
        /\ r' = r + ((c + t) % B) * p
        /\ c' = (c + t) \div B
        /\ a' = a + t * p /\ b' = b
        /\ p' = p * B
      BY DEF ProductStep
    <2> DEFINE d == (c + t) % B
               k == (c + t) \div B
    <2>0. c + t \in Nat /\ c + t \in Int BY DEF ProductInv
    <2>1. d \in Digit /\ c + t = B * k + d /\ k \in Int BY <2>0, DivMod
    <2>2. k \in Nat BY <2>0, DivNat
    <2>3. d \in Nat BY <2>1, DigitNat
    <2>. HIDE DEF d, k
    <2>4. t + c = d + k * B
      <3>1. B * k = k * B /\ k * B \in Int BY <2>2, Machine
      <3>. QED BY <3>1, <2>1, <2>3 DEF ProductInv
    <2>5. a + t * p = (r + d * p) + k * (p * B)
      BY <2>4, <2>2, <2>3, Column DEF ProductInv
    <2>6. r + d * p < p * B /\ r + d * p \in Nat BY <2>1, Weight DEF ProductInv
    <2>7. p * B \in Nat /\ p * B >= 1 BY NextWeight DEF ProductInv
    <2>8. a + t * p \in Nat BY NatMult DEF ProductInv
    <2>9. r' = r + d * p /\ c' = k BY DEF d, k
    <2>. QED BY <2>2, <2>5, <2>6, <2>7, <2>8, <2>9 DEF ProductInv
  <1>3. ProductInv => (a < p => c = 0 /\ r = a)
    <2> SUFFICES ASSUME ProductInv, a < p PROVE c = 0 /\ r = a OBVIOUS
    <2>1. CASE c >= 1
      <3>1. 1 * p <= c * p BY <2>1, Mono DEF ProductInv
      <3>2. c * p \in Nat /\ 1 * p = p BY NatMult DEF ProductInv
      <3>3. p <= c * p BY ONLY <3>1, <3>2
      <3> DEFINE K == c * p
      <3>4. a = r + K /\ p <= K /\ K \in Nat /\ r \in Nat /\ p \in Nat /\ a < p BY <3>2, <3>3 DEF ProductInv
      <3>. HIDE DEF K
      <3>. QED BY ONLY <3>4
    <2>2. CASE c = 0 BY <2>2 DEF ProductInv
    <2>. QED BY <2>1, <2>2 DEF ProductInv
  <1>. QED BY <1>1, <1>2, <1>3, PTL

-------------------------------------------------------------------------------
(* The oracle: BigNat!ColumnsAreZero.  a is the sum of the columns seen so  *)
(* far, each any integer; every total must be divisible by B.  The sum of   *)
(* all columns is zero iff no carry is left at the end ...                  *)
WalkStep == \E t \in Int :
    /\ (t + c) % B = 0
    /\ c' = (t + c) \div B
    /\ a' = a + t * p /\ UNCHANGED <<b, r>>
    /\ p' = p * B
WalkInv == a \in Int /\ c \in Int /\ p \in Nat /\ p >= 1 /\ a = c * p
THEOREM Walk == Fresh /\ [][WalkStep]_vars => [](WalkInv /\ (a = 0 <=> c = 0))
  <1>1. Fresh => WalkInv BY DEF Fresh, WalkInv
  <1>2. WalkInv /\ [WalkStep]_vars => WalkInv'
    <2> SUFFICES ASSUME WalkInv, WalkStep PROVE WalkInv'
      BY DEF WalkInv, vars
    <2> PICK t \in Int :
        /\ (t + c) % B = 0
        /\ c' = (t + c) \div B
        /\ a' = a + t * p
        /\ p' = p * B
      BY DEF WalkStep
    <2>1. t + c \in Int BY DEF WalkInv
    <2>2. c' \in Int /\ t + c = B * c' + 0 BY <2>1, DivMod
    <2>3. t + c = c' * B
      <3>1. B * c' = c' * B /\ c' * B \in Int BY <2>2, Machine
      <3>. QED BY <3>1, <2>2
    <2>4. a + t * p = c' * (p * B)
      <3>1. a = c * p /\ c \in Int /\ p \in Nat /\ t \in Int /\ c' \in Int BY <2>2 DEF WalkInv
      <3>2. (t + c) * p = t * p + c * p BY <3>1
      <3>3. (c' * B) * p = c' * (p * B) BY <3>1, Machine
      <3>4. t * p \in Int /\ c * p \in Int BY <3>1, IntMult
      <3>. QED BY <2>3, <3>1, <3>2, <3>3, <3>4
    <2>5. c' * (p * B) \in Int BY <2>2, IntMult, Machine DEF WalkInv
    <2>6. p * B \in Nat /\ p * B >= 1 BY NextWeight DEF WalkInv
    <2>7. a + t * p \in Int BY IntMult DEF WalkInv
    <2>. QED BY <2>2, <2>4, <2>5, <2>6, <2>7 DEF WalkInv
  <1>3. WalkInv => (a = 0 <=> c = 0)
    <2> SUFFICES ASSUME WalkInv PROVE a = 0 <=> c = 0 OBVIOUS
    <2>1. c >= 1 => c * p >= 1 BY DEF WalkInv
    <2>2. c <= -1 => c * p <= -1 BY DEF WalkInv
    <2>3. c = 0 => c * p = 0 BY DEF WalkInv
    <2>. QED BY <2>1, <2>2, <2>3 DEF WalkInv
  <1>. QED BY <1>1, <1>2, <1>3, PTL
(* ... and a total that is not divisible cannot be made up for: whatever    *)
(* the columns above (h: their sum, in units of the next weight), the whole *)
(* is not zero.                                                             *)
THEOREM WalkRefutes ==
    ASSUME WalkInv, NEW t \in Int, (t + c) % B # 0, NEW h \in Int
    PROVE  a + t * p + h * (p * B) # 0
  <1> SUFFICES ASSUME a + t * p + h * (p * B) = 0 PROVE FALSE OBVIOUS
  <1> DEFINE u == t + c
  <1>1. a + t * p + h * (p * B) = (u + h * B) * p
    <2>1. (u + h * B) * p = t * p + c * p + h * (p * B) BY Machine DEF WalkInv
    <2>2. t * p \in Int /\ c * p \in Int /\ h * (p * B) \in Int BY IntMult, Machine DEF WalkInv
    <2>. QED BY <2>1, <2>2 DEF WalkInv
  <1>2. u + h * B \in Int BY IntMult, Machine DEF WalkInv
  <1>3. u + h * B = 0
    <2> DEFINE w == u + h * B
    <2>1. w * p = 0 /\ w \in Int BY <1>1, <1>2
    <2>. HIDE DEF w
    <2>2. w >= 1 => w * p >= 1 BY <2>1 DEF WalkInv
    <2>3. w <= -1 => w * p <= -1 BY <2>1 DEF WalkInv
    <2>4. w = 0 BY <2>1, <2>2, <2>3
    <2>. QED BY <2>4 DEF w
  <1>4. u = (-h) * B + 0 BY <1>3, <1>2, Machine, IntMult DEF WalkInv
  <1>5. 0 \in Digit /\ -h \in Int BY Machine DEF Digit
  <1>6. ((-h) * B + 0) % B = 0 BY <1>5, Remainder
  <1>. QED BY <1>4, <1>6

-------------------------------------------------------------------------------
(* Comparison: above the first differing digits x and y (of weight p) the   *)
(* numbers agree (h), so these digits decide.                               *)
THEOREM FirstDifferenceDecides ==
    ASSUME Values, NEW x \in Digit, NEW y \in Digit, x > y, NEW h \in Int
    PROVE  a + x * p + h > b + y * p + h
  <1>0. x \in Nat /\ y \in Nat BY DigitNat
  <1>1. (y + 1) * p <= x * p BY <1>0, Mono DEF Values
  <1>2. (y + 1) * p = y * p + p /\ y * p \in Nat /\ x * p \in Nat BY <1>0, NatMult DEF Values
  <1>. QED BY <1>1, <1>2 DEF Values

-------------------------------------------------------------------------------
(* Division: abs_val_div.  a is what is left of the dividend n, r the       *)
(* quotient so far, b the divisor, c the power of two, p = c * b.           *)
VARIABLE n
Divide == /\ a = n /\ n \in Nat /\ b \in Nat /\ b >= 1 /\ r = 0 /\ c = 1 /\ p = b
Double == /\ a >= b /\ a >= p + p /\ c' = c + c /\ p' = p + p /\ UNCHANGED <<a, b, r, n>>
Take   == /\ a >= b /\ a < p + p /\ a' = a - p /\ r' = r + c /\ c' = 1 /\ p' = b /\ UNCHANGED <<b, n>>
DivStep == Double \/ Take
DivVars == <<a, b, r, c, p, n>>
DivInv == /\ a \in Nat /\ b \in Nat /\ b >= 1 /\ r \in Nat /\ c \in Nat /\ c >= 1 /\ p \in Nat /\ n \in Nat
          /\ p = c * b
          /\ a >= b => p <= a
          /\ n = r * b + a
THEOREM Division == Divide /\ [][DivStep]_DivVars => [](DivInv /\ (a < b => n = r * b + a /\ 0 <= a))
  <1>1. Divide => DivInv BY DEF Divide, DivInv
  <1>2. DivInv /\ [DivStep]_DivVars => DivInv'
    <2> SUFFICES ASSUME DivInv, DivStep PROVE DivInv'
      BY DEF DivInv, DivVars
    <2>1. CASE Double
      <3>1. (c + c) * b = c * b + c * b BY DEF DivInv
      <3>. QED BY <2>1, <3>1 DEF Double, DivInv
    <2>2. CASE Take
      <3>1. p <= a BY <2>2 DEF Take, DivInv
      <3>2. a' \in Nat /\ r' \in Nat /\ p' = c' * b' BY <2>2, <3>1 DEF Take, DivInv
      <3>3. n = r' * b + a'
        <4>1. (r + c) * b = r * b + p /\ r * b \in Nat BY NatMult DEF DivInv
        <4>. QED BY <2>2, <4>1, <3>1 DEF Take, DivInv
      <3>. QED BY <2>2, <3>2, <3>3 DEF Take, DivInv
    <2>. QED BY <2>1, <2>2 DEF DivStep
  <1>3. DivInv => (a < b => n = r * b + a /\ 0 <= a) BY DEF DivInv
  <1>. QED BY <1>1, <1>2, <1>3, PTL
===============================================================================
