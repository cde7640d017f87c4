------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Natural numbers of unbounded size as digit sequences, least significant *)
(* digit first, in a base B >= 2.  This is the arithmetic oracle of the    *)
(* whole specification: TLC's own integers have 32 bits, a BigNum has not. *)
(*                                                                         *)
(* Most operators are *relational*: rather than computing a sum, they      *)
(* decide whether a claimed result is the sum.  All of them rest on one    *)
(* fact: an integer combination of digit columns                           *)
(*      c[1] + c[2]*B + ... + c[n]*B^(n-1)                                 *)
(* is zero iff, walking up from the least significant column and carrying  *)
(* floor(t/B), every column total t is divisible by B and the last carry   *)
(* is zero.  MCBigNat.tla checks every operator here against TLC's         *)
(* built-in integers, exhaustively for small bases and lengths.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* i-th digit, zero beyond the top *)
At(s, i) == IF i <= Len(s) THEN s[i] ELSE 0

(* number of significant digits / the sequence without high-order zeros *)
SigLen(s) == SelectLastInSeq(s, LAMBDA x : x # 0)
Trim(s) == LET n == SigLen(s) IN IF n = Len(s) THEN s ELSE SubSeq(s, 1, n)

IsZeroSeq(s) == SigLen(s) = 0

(***************************************************************************)
(* Weighted column sums.                                                   *)
(***************************************************************************)
CarryStep(B, acc, t) ==
    IF ~acc[1] THEN acc
    ELSE LET u == t + acc[2] IN <<(u % B) = 0, u \div B>>

(* TRUE iff sum of cols[i]*B^(i-1) is zero *)
ColumnsAreZero(B, cols) ==
    LET r == FoldLeft(LAMBDA acc, t : CarryStep(B, acc, t), <<TRUE, 0>>, cols)
    IN  r[1] /\ r[2] = 0

(* digits (n of them) and final carry of the column sum Col(1..n); the      *)
(* carry is negative iff the sum is.  Long sums are normalised in blocks   *)
(* (TLC's Append copies the sequence).                                     *)
Block == 256
ColumnsFrom(B, carry, cols) ==
    FoldLeft(LAMBDA acc, t : LET u == t + acc[2]
                             IN  <<Append(acc[1], u % B), u \div B>>,
             <<<<>>, carry>>, cols)
Normalized(B, n, Col(_)) ==
    IF n <= Block THEN ColumnsFrom(B, 0, [k \in 1..n |-> Col(k)])
    ELSE FoldLeft(LAMBDA acc, j :
                    LET lo == (j - 1) * Block
                        r == ColumnsFrom(B, acc[2], [k \in 1..Min2(Block, n - lo) |-> Col(lo + k)])
                    IN  <<acc[1] \o r[1], r[2]>>,
                  <<<<>>, 0>>, [j \in 1..((n + Block - 1) \div Block) |-> j])
ColumnsNormal(B, cols) == Normalized(B, Len(cols), LAMBDA k : cols[k])

(* sa*a + sb*b = sr*r  for signs sa, sb, sr in {-1, 0, 1}                  *)
IsSignedSum(B, sa, a, sb, b, sr, r) ==
    LET n == Max2(Max2(Len(a), Len(b)), Len(r))
    IN  ColumnsAreZero(B, [i \in 1..n |->
            sa * At(a, i) + sb * At(b, i) - sr * At(r, i)])

(* column k of the product of a and b *)
ProdCol(a, b, k) ==
    LET lo == Max2(1, k + 1 - Len(b))
        hi == Min2(k, Len(a))
    IN  IF lo > hi THEN 0
        ELSE FoldLeft(LAMBDA acc, i : acc + a[i] * b[k + 1 - i], 0,
                      [j \in 1..(hi - lo + 1) |-> j + lo - 1])

(* a * b = r, exactly *)
IsProductExact(B, a, b, r) ==
    LET n == Max2(Len(a) + Len(b), Len(r))
    IN  ColumnsAreZero(B, [k \in 1..n |-> ProdCol(a, b, k) - At(r, k)])

(***************************************************************************)
(* For very long operands the quadratic exact test is replaced by "casting *)
(* out" several primes.  This is a necessary condition of equality, so it  *)
(* can never reject a correct result; a wrong one survives only when all   *)
(* residues coincide (about 2^-60 for an unrelated difference).            *)
(***************************************************************************)
Primes == <<32749, 32719, 32717, 32713>>
Residue(B, s, p) == FoldRight(LAMBDA d, acc : (acc * B + d) % p, s, 0)
IsProductModPrimes(B, a, b, r) ==
    \A j \in 1..Len(Primes) :
        LET p == Primes[j]
        IN  (Residue(B, a, p) * Residue(B, b, p)) % p = Residue(B, r, p)

ExactLimit == 400000
IsProduct(B, a, b, r) ==
    IF Len(a) <= ExactLimit \div Max2(1, Len(b)) THEN IsProductExact(B, a, b, r)
                                     ELSE IsProductModPrimes(B, a, b, r)

(***************************************************************************)
(* Order.                                                                  *)
(***************************************************************************)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, n) ==   \* both have (at least) n digits
    LET k == SelectLastInSubSeq([i \in 1..n |-> a[i] - b[i]], 1, n, LAMBDA x : x # 0)
    IN  IF k = 0 THEN 0 ELSE IF a[k] < b[k] THEN -1 ELSE 1

(* -1, 0, 1 as a <, =, > b; leading zeros are irrelevant *)
Cmp(a, b) ==
    LET m == SigLen(a)  n == SigLen(b)
    IN  IF m < n THEN -1 ELSE IF m > n THEN 1 ELSE CmpFrom(a, b, n)

(***************************************************************************)
(* Division: q is the floor of n/d.  The remainder is what is left of the  *)
(* column sum n - q*d; it must be a natural number below d.                *)
(***************************************************************************)
RemainderOf(B, n, d, q) ==
    LET len == Max2(Len(n), Len(q) + Len(d))
    IN  Normalized(B, len, LAMBDA k : At(n, k) - ProdCol(q, d, k))

IsQuotient(B, n, d, q) ==
    LET r == RemainderOf(B, n, d, q)
    IN  r[2] = 0 /\ Cmp(r[1], d) = -1

(***************************************************************************)
(* Constructive arithmetic, used where the specification generates results *)
(* instead of judging them (exhaustive models, expected behaviours).       *)
(***************************************************************************)
RECURSIVE FromNat(_, _)
FromNat(B, x) == IF x = 0 THEN <<>> ELSE <<x % B>> \o FromNat(B, x \div B)
ToNat(B, s) == FoldRight(LAMBDA d, acc : acc * B + d, s, 0)

AddSeq(B, a, b) ==
    LET n == Max2(Len(a), Len(b))
        r == ColumnsNormal(B, [i \in 1..n |-> At(a, i) + At(b, i)])
    IN  Trim(Append(r[1], r[2]))
(* requires a >= b *)
SubSeqNat(B, a, b) ==
    Trim(ColumnsNormal(B, [i \in 1..Len(a) |-> At(a, i) - At(b, i)])[1])
MulSeq(B, a, b) ==
    LET r == ColumnsNormal(B, [k \in 1..(Len(a) + Len(b)) |-> ProdCol(a, b, k)])
    IN  Trim(r[1] \o FromNat(B, r[2]))
MulDigit(B, a, d) ==
    LET r == ColumnsNormal(B, [i \in 1..Len(a) |-> a[i] * d])
    IN  Trim(r[1] \o FromNat(B, r[2]))
(* schoolbook long division, most significant digit first; d must not be 0 *)
RECURSIVE QDigit(_, _, _, _, _)
QDigit(B, r, d, lo, hi) ==      \* largest q in lo..hi with q*d <= r
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN  IF Cmp(MulDigit(B, d, m), r) <= 0 THEN QDigit(B, r, d, m, hi)
                                               ELSE QDigit(B, r, d, lo, m - 1)
DivModSeq(B, n, d) ==           \* <<quotient, remainder>>
    LET res == FoldRight(LAMBDA x, acc :
                 LET r == Trim(<<x>> \o acc[2])
                     q == QDigit(B, r, d, 0, B - 1)
                 IN  <<<<q>> \o acc[1], SubSeqNat(B, r, MulDigit(B, d, q))>>,
               n, <<<<>>, <<>>>>)
    IN  <<Trim(res[1]), res[2]>>

(* value of s (base B) rewritten in base C; Horner, needs (B-1)*C small *)
Rebase(B, C, s) ==
    FoldRight(LAMBDA d, acc :
        LET r == ColumnsNormal(C, [i \in 1..Max2(Len(acc), 1) |->
                     At(acc, i) * B + (IF i = 1 THEN d ELSE 0)])
        IN  Trim(r[1] \o FromNat(C, r[2])), s, <<>>)
=============================================================================
