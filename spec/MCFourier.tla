----------------------------- MODULE MCFourier -----------------------------
(***************************************************************************)
(* The algorithm of the convolution helpers, exactly: the complex numbers  *)
(* it needs are integer combinations of powers of a primitive M-th root of *)
(* unity z (z^(M/2) = -1), so they are sequences of M/2 integers and every *)
(* step is exact.  For all small signals TLC checks that the recursive     *)
(* even/odd transform is the DFT, that conjugate-transform-conjugate is    *)
(* its inverse, and that the frequency-domain formula for two real signals *)
(* packed into one complex signal yields the product coefficients.         *)
(* Also checked here: the observers of Fourier.tla.                        *)
(***************************************************************************)
EXTENDS Fourier, TLC
CONSTANTS M, Digit, MaxLen
VARIABLES a, b

H == M \div 2
Zero == [j \in 1..H |-> 0]
Add(x, y) == [j \in 1..H |-> x[j] + y[j]]
Neg(x) == [j \in 1..H |-> -x[j]]
Scale(n, x) == [j \in 1..H |-> n * x[j]]
(* times z^t *)
Rot(x, t) == [j \in 1..H |->
    LET u == (j - 1 - t) % M IN IF u < H THEN x[u + 1] ELSE -x[u - H + 1]]
Conj(x) == [j \in 1..H |-> IF j = 1 THEN x[1] ELSE -x[H + 2 - j]]
Mul(x, y) == FoldLeft(LAMBDA acc, j : Add(acc, Scale(y[j], Rot(x, j - 1))), Zero, [j \in 1..H |-> j])
OfInt(n) == [j \in 1..H |-> IF j = 1 THEN n ELSE 0]
OfComplex(re, im) == Add(OfInt(re), Rot(OfInt(im), M \div 4))

(* the code, step by step *)
RECURSIVE FFT(_)
FFT(x) ==
    LET n == Len(x)
    IN  IF n <= 1 THEN x
        ELSE LET evens == FFT([k \in 1..(n \div 2) |-> x[2 * k - 1]])
                 odds  == FFT([k \in 1..(n \div 2) |-> x[2 * k]])
                 w(k)  == Rot(odds[k], -(k - 1) * (M \div n))
             IN  [k \in 1..n |-> IF k <= n \div 2 THEN Add(evens[k], w(k))
                                 ELSE Add(evens[k - n \div 2], Neg(w(k - n \div 2)))]
(* times the length *)
InverseN(x) == LET y == FFT([k \in 1..Len(x) |-> Conj(x[k])])
               IN  [k \in 1..Len(x) |-> Conj(y[k])]
(* times four *)
Convolve4(x) ==
    LET n == Len(x)
        t == FFT(x)
        tc(i) == Conj(t[((-(i - 1)) % n) + 1])
    IN  [i \in 1..n |-> Rot(Mul(Add(t[i], tc(i)), Add(t[i], Neg(tc(i)))), -(M \div 4))]

DFT(x) == [k \in 1..Len(x) |->
    FoldLeft(LAMBDA acc, j : Add(acc, Rot(x[j], -(k - 1) * (j - 1) * (M \div Len(x)))), Zero,
             [j \in 1..Len(x) |-> j])]

Size(n) == CHOOSE p \in {0, 1, 2, 4, 8, 16} : p >= n /\ \A q \in {0, 1, 2, 4, 8, 16} : q >= n => q >= p
Signal == LET n == Size(Len(a) + Len(b)) IN [i \in 1..n |-> OfComplex(At(a, i), At(b, i))]

Init == /\ a \in UNION {[1..n -> Digit] : n \in 0..MaxLen} /\ b = <<-1>>
        /\ tab = <<>> /\ len = 0
Next == /\ b = <<-1>> /\ b' \in UNION {[1..n -> Digit] : n \in 0..MaxLen}
        /\ UNCHANGED <<a, tab, len>>
Spec == Init /\ [][Next]_<<a, b, tab, len>>

Transforms ==
    LET x == Signal
    IN  /\ FFT(x) = DFT(x)
        /\ InverseN(FFT(x)) = [i \in 1..Len(x) |-> Scale(Len(x), x[i])]
        /\ FFT(InverseN(x)) = [i \in 1..Len(x) |-> Scale(Len(x), x[i])]
Product ==
    LET x == Signal  n == Len(x)
    IN  InverseN(Convolve4(x)) = [k \in 1..n |-> OfInt(4 * n * ProdCol(a, b, k))]
(* the quarter bins of Fourier.tla are bins of the DFT *)
Observers ==
    LET x == Signal  n == Len(x)
        s == [i \in 1..n |-> <<At(a, i), At(b, i)>>]
    IN  n > 0 =>
        /\ \A k \in Quarters(n) :
             LET z == QuarterBin(s, k, 1) IN DFT(x)[((n * k) \div 4) + 1] = OfComplex(z[1], z[2])
        /\ \A k \in Quarters(n) :
             LET z == QuarterBin(s, k, -1) IN InverseN(x)[((n * k) \div 4) + 1] = OfComplex(z[1], z[2])
Inv == b # <<-1>> => (Transforms /\ Product /\ Observers)

(* fixed-point circle: points have length 4096 and steps turn by 1/64 *)
Circle == \A t \in 0..63 :
    /\ AbsI(CosAt(t) * CosAt(t) + SinAt(t) * SinAt(t) - 4096 * 4096) < 4096 * 2
    /\ AbsI(CosAt(t) * CosAt(1) - SinAt(t) * SinAt(1) - CosAt((t + 1) % 64) * 4096) < 4096 * 2
    /\ AbsI(SinAt(t) * CosAt(1) + CosAt(t) * SinAt(1) - SinAt((t + 1) % 64) * 4096) < 4096 * 2
ASSUME Circle
(* the power-of-two oracle against integers *)
P2 == {2 ^ i : i \in 0..15}
Bytes(n) == <<n % 256, n \div 256>>
ASSUME \A n \in 0..65535 : IsPow2Seq(Bytes(n)) = (n \in P2)
ASSUME \A n \in 1..1025 : \A r \in P2 \cup {0, 3, 96, 1000} :
    SmallestPow2(Bytes(n), Bytes(r)) = (r \in P2 /\ r >= n /\ \A q \in P2 : q >= n => q >= r)
=============================================================================
