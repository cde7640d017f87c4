------------------------------- MODULE Fourier -------------------------------
(***************************************************************************)
(* The convolution helpers (C15) as a state machine over one transform     *)
(* table.  The abstract content of the table is an integer signal, or the  *)
(* spectrum of an integer signal, or the spectrum of the convolution of    *)
(* two digit sequences: what the floating-point entries stand for.         *)
(* An observation lists, for a complex entry, the nearest integers and the *)
(* distance to them in units of 2^-20; Near says when an entry counts as   *)
(* an integer.  TLC has no reals, hence the spectrum is observed           *)
(*  - exactly at the four bins 0, N/4, N/2, 3N/4, whose roots of unity are *)
(*    1, -i, -1, i, and                                                    *)
(*  - at every bin of short tables against roots of unity in fixed point,  *)
(* and through its inverse, which must be the signal again.                *)
(* MCFourier.tla proves the algorithm exactly, in a ring with a root of    *)
(* unity, for all small signals.                                           *)
(***************************************************************************)
EXTENDS BigNat

CONSTANT Slack          \* how far from an integer an entry may be, in 2^-20
VARIABLES tab,          \* [is |-> "signal" | "spectrum" | "product", s |-> <<re, im>> sequence, a |-> , b |-> ]
          len           \* entries in the table
vars0 == <<tab, len>>

(* TLC judges a bare conjunct of an action conjunct by conjunct, each inside *)
(* the one before it: long ones exhaust the stack.  Holds is judged at once. *)
Holds(P) == P = TRUE

IsPow2Nat(n) == n \in {2 ^ i : i \in 0..24}
Near(o, n) == o[1] = n /\ o[2] \in (-Slack)..Slack

(***************************************************************************)
(* Packing two digit sequences into one table.                             *)
(***************************************************************************)
Packed(a, b, n) == [i \in 1..n |-> <<At(a, i), At(b, i)>>]
CanHold(n, a, b) == IF a = <<>> /\ b = <<>> THEN n = 0 \/ IsPow2Nat(n)
                    ELSE IsPow2Nat(n) /\ n >= Len(a) + Len(b) - 1 /\ n >= Len(a) /\ n >= Len(b)
Pack(a, b, obs) ==
    /\ CanHold(Len(obs), a, b)
    /\ Holds(\A i \in 1..Len(obs) : obs[i][1] = <<At(a, i), 0>> /\ obs[i][2] = <<At(b, i), 0>>)
    /\ tab' = [is |-> "signal", s |-> Packed(a, b, Len(obs)), a |-> a, b |-> b]
    /\ len' = Len(obs)

Put(s) == /\ tab' = [is |-> "signal", s |-> s, a |-> <<>>, b |-> <<>>]
          /\ len' = Len(s)

(***************************************************************************)
(* Exact bins.  mult: i^(q*j) with q = 0, 1, 2, 3 quarter turns backwards  *)
(***************************************************************************)
Turn(z, t) == CASE t % 4 = 0 -> z                      \* z * (-i)^t
                [] t % 4 = 1 -> <<z[2], -z[1]>>
                [] t % 4 = 2 -> <<-z[1], -z[2]>>
                [] t % 4 = 3 -> <<-z[2], z[1]>>
AddC(x, y) == <<x[1] + y[1], x[2] + y[2]>>
QuarterBin(s, q, dir) == FoldLeft(LAMBDA acc, j : AddC(acc, Turn(s[j], q * dir * (j - 1))),
                                  <<0, 0>>, [j \in 1..Len(s) |-> j])
(* the quarter bins that exist in a table of n entries *)
Quarters(n) == IF n >= 4 THEN 0..3 ELSE IF n = 2 THEN {0, 2} ELSE {0}
QuartersOK(s, q, dir) ==
    \A k \in Quarters(Len(s)) :
        LET z == QuarterBin(s, k, dir)
        IN  Near(q[k + 1][1], z[1]) /\ Near(q[k + 1][2], z[2])

(***************************************************************************)
(* All bins of short tables: cosines times 4096, rounded.                  *)
(***************************************************************************)
Fine == 64
Cos64 == <<4096, 4076, 4017, 3920, 3784, 3612, 3406, 3166, 2896, 2598, 2276, 1931, 1567, 1189, 799, 401, 0>>
CosAt(t) == LET u == t % 64
            IN  CASE u <= 16 -> Cos64[u + 1]
                  [] u > 16 /\ u <= 32 -> -Cos64[33 - u]
                  [] u > 32 /\ u <= 48 -> -Cos64[u - 31]
                  [] OTHER -> Cos64[65 - u]
SinAt(t) == CosAt(t + 48)        \* sin x = cos(x - 1/4 turn)
AbsI(n) == IF n < 0 THEN -n ELSE n
Weight(s) == FoldLeft(LAMBDA acc, z : acc + AbsI(z[1]) + AbsI(z[2]), 0, s)
Bin4096(s, k, dir) ==
    FoldLeft(LAMBDA acc, j :
        LET t == (dir * k * (j - 1) * (Fine \div Len(s))) % Fine
            c == CosAt(t)  d == -SinAt(t)                    \* e^(-i t)
        IN  <<acc[1] + s[j][1] * c - s[j][2] * d, acc[2] + s[j][1] * d + s[j][2] * c>>,
        <<0, 0>>, [j \in 1..Len(s) |-> j])
AllBinsOK(s, all, dir) ==
    /\ Len(all) = Len(s)
    /\ LET tol == Weight(s) + 1
       IN  \A k \in 1..Len(s) :
               LET z == Bin4096(s, k - 1, dir)
               IN  AbsI(all[k][1] - z[1]) <= tol /\ AbsI(all[k][2] - z[2]) <= tol

SpectrumOK(s, q, all, dir) ==
    /\ QuartersOK(s, q, dir)
    /\ Len(s) <= Fine => AllBinsOK(s, all, dir)

Transform(n, q, all) ==
    /\ tab.is = "signal" /\ n = len
    /\ Holds(len > 0 => SpectrumOK(tab.s, q, all, 1))
    /\ tab' = [tab EXCEPT !.is = "spectrum"]
    /\ UNCHANGED len

(* of a spectrum: the signal it came from *)
InverseBack(obs) ==
    /\ tab.is = "spectrum" /\ Len(obs) = len
    /\ Holds(\A i \in 1..len : Near(obs[i][1], tab.s[i][1]) /\ Near(obs[i][2], tab.s[i][2]))
    /\ tab' = [tab EXCEPT !.is = "signal"]
    /\ UNCHANGED len
(* of a signal taken for a spectrum; observed multiplied by the length *)
InverseOfSignal(n, q, all) ==
    /\ tab.is = "signal" /\ n = len
    /\ Holds(len > 0 => SpectrumOK(tab.s, q, all, -1))
    /\ tab' = [tab EXCEPT !.is = "inverse"]
    /\ UNCHANGED len
(* ... and its transform is the signal again *)
TransformBack(obs) ==
    /\ tab.is = "inverse" /\ Len(obs) = len
    /\ Holds(\A i \in 1..len : Near(obs[i][1], tab.s[i][1]) /\ Near(obs[i][2], tab.s[i][2]))
    /\ tab' = [tab EXCEPT !.is = "signal"]
    /\ UNCHANGED len

(* point-wise product of the two packed signals, in the frequency domain   *)
Convolve(n) ==
    /\ tab.is = "signal" /\ n = len
    /\ tab' = [tab EXCEPT !.is = "product"]
    /\ UNCHANGED len

(* of that product: coefficients as limbs base 256, least significant first*)
CoefLimbs == 6
(* TLC would evaluate the elements of a defined sequence at every use *)
Eager(s) == <<>> \o s
Spread(a) == [i \in 1..(CoefLimbs * Len(a)) |->
                 LET x == a[(i - 1) \div CoefLimbs + 1]
                 IN  CASE i % CoefLimbs = 1 -> x % 256
                       [] i % CoefLimbs = 2 -> (x \div 256) % 256
                       [] i % CoefLimbs = 3 -> x \div 65536
                       [] OTHER -> 0]
(* long products: the polynomials agree at several points modulo primes.   *)
(* Necessary, so a right product is never rejected.                        *)
Points == <<<<32749, 2>>, <<32749, 20011>>, <<32719, 257>>, <<32713, 31013>>>>
ValueAt(s, p, x) == FoldRight(LAMBDA c, acc : (acc * x + c) % p, s, 0)
CoefValueAt(s, p, x) ==
    FoldRight(LAMBDA c, acc : (acc * x + FoldRight(LAMBDA d, v : (v * 256 + d) % p, c, 0)) % p, s, 0)
AgreeAtPoints(a, b, coef) ==
    \A i \in 1..Len(Points) :
        LET p == Points[i][1]  x == Points[i][2]
        IN  (ValueAt(a, p, x) * ValueAt(b, p, x)) % p = CoefValueAt(coef, p, x)
ProductCoefficients(coef) ==
    /\ tab.is = "product" /\ Len(coef) = len
    /\ Holds(\A i \in 1..len : Len(coef[i]) = CoefLimbs /\ \A j \in 1..CoefLimbs : coef[i][j] \in 0..255)
    /\ Holds(IF len > 1024 THEN AgreeAtPoints(tab.a, tab.b, coef)
       ELSE IsProduct(256, Eager(Spread(tab.a)), Eager(Spread(tab.b)),
                 Eager([i \in 1..(CoefLimbs * len) |-> coef[(i - 1) \div CoefLimbs + 1][((i - 1) % CoefLimbs) + 1]])))
    /\ tab' = [tab EXCEPT !.is = "coefficients"]
    /\ UNCHANGED len

(***************************************************************************)
(* Power-of-two helpers: arguments and results as bytes (base 256 limbs,   *)
(* all of the type's width).  Pairs and larger arguments alike.            *)
(***************************************************************************)
Bits8 == {1, 2, 4, 8, 16, 32, 64, 128}
IsPow2Seq(n) == LET z == SelectSeq(n, LAMBDA b : b # 0)
                IN  Len(z) = 1 /\ z[1] \in Bits8
(* r is the smallest power of two >= n, where n > 0 *)
SmallestPow2(n, r) == IsPow2Seq(r) /\ Cmp(r, n) >= 0 /\ Cmp(r, AddSeq(256, n, n)) = -1
Representable(n) == (* a power of two >= n fits in as many bytes *)
    Cmp(n, [i \in 1..Len(n) |-> IF i = Len(n) THEN 128 ELSE 0]) <= 0
Helpers(rows) ==
    /\ Holds(\A i \in 1..Len(rows) :
         LET n == rows[i][1]
         IN  /\ rows[i][3] = IsPow2Seq(n)
             /\ (~IsZeroSeq(n) /\ Representable(n)) => SmallestPow2(n, rows[i][2]))
    /\ UNCHANGED vars0
=============================================================================
