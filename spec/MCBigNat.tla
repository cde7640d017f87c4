------------------------------ MODULE MCBigNat ------------------------------
(* The oracle itself, checked exhaustively against TLC's integers: every   *)
(* operator of BigNat on every pair of digit sequences of bounded length   *)
(* (leading zeros included), every base in Bases.  One state per case, so  *)
(* that TLC spreads them over its workers and counts them.                 *)
EXTENDS BigNat, TLC
CONSTANTS Bases, MaxLen
VARIABLES B, a, b, done
vars == <<B, a, b, done>>

Seqs(base, n) == UNION {[1..m -> 0..(base - 1)] : m \in 0..n}
Init == /\ B \in Bases
        /\ a \in Seqs(B, MaxLen) /\ b \in Seqs(B, MaxLen)
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<B, a, b>>
Spec == Init /\ [][Next]_vars

x == ToNat(B, a)
y == ToNat(B, b)
Near(v) == {w \in {v - B, v - 1, v, v + 1, v + B} : w >= 0}   \* claimed results
Shapes(v) == {FromNat(B, v), Append(FromNat(B, v), 0)}
Sg(v) == IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0
AbsV(v) == IF v < 0 THEN -v ELSE v

Roundtrip == ToNat(B, FromNat(B, x)) = x /\ FromNat(B, x) = Trim(a)
Order == /\ (Cmp(a, b) = -1) <=> (x < y)
         /\ (Cmp(a, b) = 0) <=> (x = y)
         /\ IsZeroSeq(a) <=> (x = 0)
Sums == \A sa \in {-1, 1}, sb \in {-1, 1} :
          LET v == sa * x + sb * y
          IN  \A w \in {v - B, v - 1, v, v + 1, v + B, -v} :
                \A r \in Shapes(AbsV(w)) :
                  IsSignedSum(B, sa, a, sb, b, Sg(w), r) <=> (w = v)
Products == \A w \in Near(x * y) : \A r \in Shapes(w) :
              /\ IsProductExact(B, a, b, r) <=> (w = x * y)
              /\ (w = x * y) => IsProductModPrimes(B, a, b, r)
Quotients == y > 0 => \A w \in Near(x \div y) : \A q \in Shapes(w) :
               IsQuotient(B, a, b, q) <=> (w = x \div y)
Constructive ==
    /\ AddSeq(B, a, b) = FromNat(B, x + y)
    /\ (x >= y) => SubSeqNat(B, a, b) = FromNat(B, x - y)
    /\ MulSeq(B, a, b) = FromNat(B, x * y)
    /\ (y > 0) => DivModSeq(B, a, b) = <<FromNat(B, x \div y), FromNat(B, x % y)>>
    /\ \A C \in Bases : Rebase(B, C, a) = FromNat(C, x)

(* so that the normalisation of long sums in blocks is exercised, too *)
SmallBlock == 1
=============================================================================
