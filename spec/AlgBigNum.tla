------------------------------ MODULE AlgBigNum ------------------------------
(***************************************************************************)
(* The arithmetic of the library one digit operation at a time: one call   *)
(* x op= num, where num is another number y or x itself, from any pair of  *)
(* numbers of at most L digits.  Digits live in machine words (a double    *)
(* word wraps at DW), containers grow by allocations that may fail, and    *)
(* every read of num sees what the call has already done to x.             *)
(*                                                                         *)
(* TLC checks that the call always returns, that what it returns is legal  *)
(* in BigNum.tla, that y is never touched, that a failed allocation leaves *)
(* what BigNum!CompoundFails demands, and the loop invariants below.       *)
(*                                                                         *)
(* Variant = "none" is the library as it is.  The other values are wrong   *)
(* digit loops, most of them defects the library once had; bin/models      *)
(* demands a counterexample for each.                                      *)
(***************************************************************************)
EXTENDS BigNum, TLC
CONSTANTS Base, DW, L, Faults, Variant, OpsUsed

VARIABLES op, alias, x0, y0,   \* the call
          pc, back,            \* control: where to go when a loop is done
          S,                   \* name -> digit sequence: "x", "y", and locals
          xd, yd,              \* kinds of x and y
          T, U,                \* names a loop writes / reads
          i, c                 \* loop index (zero based) and carry or borrow
call == <<op, alias, x0, y0>>
vars == <<op, alias, x0, y0, pc, back, S, xd, yd, T, U, i, c, ty, pool>>

M == Base - 1
Num == IF alias THEN "x" ELSE "y"
numd == IF alias THEN xd ELSE yd
Locals == {"tmp", "div", "b0", "b1", "q", "res", "ret"}

(* Locals that are dead are emptied, to keep the state space small          *)
Seqs(n) == UNION {[1..m -> 0..M] : m \in 0..n}
Nums == [d : {"pos", "neg"}, s : Seqs(L)] \cup [d : {"nan", "+inf", "-inf"}, s : {<<>>}]

Init ==
    /\ ty = [B |-> Base, k |-> 1] /\ pool = <<>>
    /\ op \in OpsUsed /\ alias \in BOOLEAN
    /\ x0 \in Nums
    /\ y0 \in (IF alias THEN {[d |-> "pos", s |-> <<>>]} ELSE Nums)
    /\ pc = "start" /\ back = ""
    /\ S = [n \in Locals \cup {"x", "y"} |-> IF n = "x" THEN x0.s ELSE IF n = "y" THEN y0.s ELSE <<>>]
    /\ xd = x0.d /\ yd = y0.d
    /\ T = "" /\ U = "" /\ i = 0 /\ c = 0

(***************************************************************************)
(* Comparisons of magnitudes, as the code decides them.                    *)
(***************************************************************************)
RECURSIVE Signif(_, _)
Signif(s, n) == IF n > 0 /\ s[n] = 0 THEN Signif(s, n - 1) ELSE n
RECURSIVE GeFrom(_, _, _)
GeFrom(a, b, n) == IF n = 0 THEN TRUE
                   ELSE IF a[n] > b[n] THEN TRUE
                   ELSE IF a[n] < b[n] THEN Variant = "compare on" /\ GeFrom(a, b, n - 1)
                   ELSE GeFrom(a, b, n - 1)
Ge(a, b) ==
    LET m == IF Variant = "count zeros" THEN Len(a) ELSE Signif(a, Len(a))
        n == IF Variant = "count zeros" THEN Len(b) ELSE Signif(b, Len(b))
    IN  IF m # n THEN m > n ELSE GeFrom(a, b, m)
ZeroDigits(s) == Signif(s, Len(s)) = 0

(***************************************************************************)
(* Control.                                                                *)
(***************************************************************************)
Goto(label) == pc' = label
Keep == UNCHANGED <<call, ty, pool, yd>>
Still == UNCHANGED <<T, U, i, c, back>>
Loop(label, t, u, return) ==
    /\ pc' = label /\ T' = t /\ U' = u /\ i' = 0 /\ c' = 0 /\ back' = return
Local(n, s) == S' = [S EXCEPT ![n] = s]
(* an allocation fails: the handler of every compound operator *)
Fail == /\ Faults
        /\ xd' = IF numd = "pos" THEN "+inf" ELSE "-inf"
        /\ S' = [n \in DOMAIN S |-> IF n = "y" THEN S["y"] ELSE <<>>]
        /\ pc' = "raise" /\ Keep /\ Still
Return(d, s) == /\ xd' = d
                /\ S' = [n \in DOMAIN S |-> IF n = "y" THEN S["y"] ELSE IF n = "x" THEN s ELSE <<>>]
                /\ pc' = "ret" /\ Keep /\ Still

Special ==   \* an operand is NaN or infinite
    /\ pc = "start" /\ {xd, numd} \cap {"nan", "+inf", "-inf"} # {}
    /\ LET x == [d |-> xd, s |-> S["x"]]
           y == [d |-> numd, s |-> S[Num]]
           inf(n) == n \in {"+inf", "-inf"}
           neg(n) == n \in {"neg", "-inf"}
           to(d) == Return(d, <<>>)
       IN CASE xd = "nan" \/ numd = "nan" -> to("nan")
            [] op = "+" /\ inf(xd) /\ inf(numd) /\ xd # numd -> to("nan")
            [] op = "+" -> to(IF inf(xd) THEN xd ELSE numd)
            [] op = "-" /\ inf(xd) /\ inf(numd) /\ xd = numd -> to("nan")
            [] op = "-" -> to(IF inf(xd) THEN xd ELSE IF neg(numd) THEN "+inf" ELSE "-inf")
            [] op = "*" -> to(IF ZeroVal(x) \/ ZeroVal(y) THEN "nan" ELSE IF neg(xd) # neg(numd) THEN "-inf" ELSE "+inf")
            [] op = "/" /\ inf(xd) /\ inf(numd) -> to("nan")
            [] op = "/" -> to(IF inf(numd) THEN "pos" ELSE IF neg(xd) # neg(numd) THEN "-inf" ELSE "+inf")

Start ==     \* both operands are finite
    /\ pc = "start" /\ {xd, numd} \cap {"nan", "+inf", "-inf"} = {}
    /\ LET adding == IF op = "+" THEN xd = numd ELSE xd # numd
       IN CASE op \in {"+", "-"} /\ adding ->
                  Loop("add", "x", Num, "finish") /\ UNCHANGED <<S, xd>> /\ Keep
            [] op \in {"+", "-"} /\ ~adding /\ Ge(S["x"], S[Num]) ->
                  Loop("sub", "x", Num, "finish") /\ UNCHANGED <<S, xd>> /\ Keep
            [] op \in {"+", "-"} /\ ~adding /\ ~Ge(S["x"], S[Num]) ->
                  \/ Fail
                  \/ /\ Local("tmp", S[Num]) /\ Loop("sub", "tmp", "x", "take") /\ UNCHANGED xd /\ Keep
            [] op = "*" -> Goto("mul") /\ UNCHANGED <<S, xd>> /\ Keep /\ Still
            [] op = "/" -> Goto("div") /\ UNCHANGED <<S, xd>> /\ Keep /\ Still
(* x becomes the difference, with the other sign *)
Take == /\ pc = "take"
        /\ Return(CASE op = "+" -> yd
                    [] op = "-" -> IF xd = "pos" THEN "neg" ELSE "pos", S["tmp"])
(* zero has no sign *)
Ending == /\ pc = "finish"
          /\ Return(IF Variant # "negative zero" /\ ZeroDigits(S["x"]) THEN "pos" ELSE xd, S["x"])

(***************************************************************************)
(* S[T] += S[U]                                                            *)
(***************************************************************************)
Digit(s, n) == IF n < Len(s) THEN s[n + 1] ELSE 0
Add ==
    /\ pc = "add"
    /\ \/ i = Len(S[T]) /\ Fail
       \/ LET grown == IF i = Len(S[T]) THEN Append(S[T], 0) ELSE S[T]
              seen  == IF T = U THEN grown ELSE S[U]
              sum == (grown[i + 1] + Digit(seen, i) + c) % DW
              out == [grown EXCEPT ![i + 1] = IF sum > M THEN sum % Base ELSE sum]
              carry == IF sum > M THEN 1 ELSE 0
              over == IF Variant = "drop last carry" THEN TRUE ELSE carry = 0
              src == IF T = U THEN Len(out) ELSE Len(S[U])
          IN  /\ S' = [S EXCEPT ![T] = out]
              /\ i' = i + 1 /\ c' = carry
              /\ pc' = IF i + 1 = Len(out) /\ i + 1 >= src /\ over THEN back ELSE "add"
              /\ UNCHANGED <<T, U, back, xd>> /\ Keep

(***************************************************************************)
(* S[T] -= S[U], which is not larger; zeros at the top are dropped          *)
(***************************************************************************)
Sub ==
    /\ pc = "sub"
    /\ IF i < Len(S[T])
       THEN LET lent == IF Variant = "borrow from digit" THEN (S[T][i + 1] - c) % Base ELSE S[T][i + 1] - c
                diff == (lent - Digit(S[U], i)) % DW
                out == IF diff > M THEN ((diff + M + 1) % DW) % Base ELSE diff
            IN  /\ S' = [S EXCEPT ![T][i + 1] = out]
                /\ c' = IF diff > M THEN 1 ELSE 0
                /\ i' = i + 1 /\ UNCHANGED <<pc, T, U, back, xd>> /\ Keep
       ELSE /\ S' = [S EXCEPT ![T] = IF Variant = "trim once" /\ @ # <<>>
                                     THEN (IF @[Len(@)] = 0 THEN SubSeq(@, 1, Len(@) - 1) ELSE @)
                                     ELSE SubSeq(@, 1, Signif(@, Len(@)))]
            /\ pc' = back /\ Still /\ UNCHANGED xd /\ Keep

(***************************************************************************)
(* Products: columns of digit products (exact integers, see MCFourier and   *)
(* the naive loop below), then one carry that takes all of a column sum.    *)
(* AccW: what the carry can hold.                                           *)
(***************************************************************************)
AccW == IF Variant = "narrow carry" THEN Base * Base ELSE 2 ^ 24
RECURSIVE Pow2From(_, _)
Pow2From(p, n) == IF p >= n THEN p ELSE Pow2From(2 * p, n)
TableSize == IF Len(S["x"]) + Len(S[Num]) = 0 THEN 0
             ELSE IF Variant = "short table" THEN Pow2From(1, Max2(Len(S["x"]), Len(S[Num])))
             ELSE Pow2From(1, Len(S["x"]) + Len(S[Num]))
RECURSIVE Cyclic(_, _, _, _)
(* column k of the cyclic convolution of length n *)
Cyclic(a, b, k, n) == IF k > Len(a) + Len(b) THEN 0 ELSE ProdCol(a, b, k) + Cyclic(a, b, k + n, n)
Mul ==
    /\ pc = "mul"
    /\ \/ Fail
       \/ Loop("column", "ret", Num, "multiplied") /\ UNCHANGED <<S, xd>> /\ Keep
Column ==
    /\ pc = "column"
    /\ IF i < TableSize
       THEN LET t == (c + Cyclic(S["x"], S[Num], i + 1, TableSize)) % AccW
            IN  /\ Local("ret", Append(S["ret"], t % Base))
                /\ c' = t \div Base /\ i' = i + 1
                /\ UNCHANGED <<pc, T, U, back, xd>> /\ Keep
       ELSE /\ Local("ret", SubSeq(S["ret"], 1, Signif(S["ret"], Len(S["ret"]))))
            /\ pc' = back /\ Still /\ UNCHANGED xd /\ Keep
Multiplied ==
    /\ pc = "multiplied"
    /\ Return(IF ZeroDigits(S["ret"]) /\ Variant # "negative zero" THEN "pos"
              ELSE IF xd = numd THEN "pos" ELSE "neg", S["ret"])

(***************************************************************************)
(* Quotients: subtract the largest power of two times the divisor, add that *)
(* power to the quotient, again.                                            *)
(***************************************************************************)
Div ==
    /\ pc = "div"
    /\ LET sign == IF xd = numd THEN "pos" ELSE "neg"
       IN CASE (IF Variant = "zero without digits" THEN S[Num] = <<0>> ELSE ZeroDigits(S[Num])) ->
                  Return(IF sign = "neg" THEN "-inf" ELSE "+inf", <<>>)
            [] ~ZeroDigits(S[Num]) /\ ZeroDigits(S["x"]) -> Return("pos", S["x"])
            [] ~ZeroDigits(S[Num]) /\ ~ZeroDigits(S["x"]) /\ S[Num] = <<1>> -> Return(sign, S["x"])
            [] (Variant = "zero without digits" /\ S[Num] # <<0>> /\ ZeroDigits(S[Num]))
               \/ (~ZeroDigits(S[Num]) /\ ~ZeroDigits(S["x"]) /\ S[Num] # <<1>>) ->
               \/ Fail
               \/ IF Ge(S["x"], S[Num])
                  THEN /\ S' = [S EXCEPT !["div"] = IF Variant = "divisor aliased" /\ alias THEN <<>> ELSE S[Num],
                                         !["res"] = <<0>>]
                       /\ pc' = "outer" /\ xd' = sign /\ Still /\ Keep
                  ELSE Return("pos", <<0>>)
Divisor == IF Variant = "divisor aliased" /\ alias THEN S["x"] ELSE S["div"]
Outer ==
    /\ pc = "outer"
    /\ IF Ge(S["x"], Divisor) /\ ~(Variant = "strict" /\ ~Ge(Divisor, <<>>))
       THEN \/ Fail
            \/ /\ S' = [S EXCEPT !["b0"] = Divisor, !["b1"] = Divisor, !["q"] = <<1>>]
               /\ Loop("double", "b1", "", "inner") /\ UNCHANGED xd /\ Keep
       ELSE Return(xd, S["res"])
Inner ==
    /\ pc = "inner"
    /\ IF Ge(S["x"], S["b1"])
       THEN \/ Fail
            \/ /\ Local("b0", S["b1"])
               /\ Loop("double", "b1", "", "inner2") /\ UNCHANGED xd /\ Keep
       ELSE Loop("sub", "x", "b0", "gather") /\ UNCHANGED <<S, xd>> /\ Keep
Inner2 == /\ pc = "inner2" /\ Loop("double", "q", "", "inner") /\ UNCHANGED <<S, xd>> /\ Keep
Double ==
    /\ pc = "double"
    /\ IF i < Len(S[T])
       THEN LET t == S[T][i + 1] * 2 + c
            IN  /\ S' = [S EXCEPT ![T][i + 1] = t % Base]
                /\ c' = (IF t > M THEN 1 ELSE 0) /\ i' = i + 1
                /\ UNCHANGED <<pc, T, U, back, xd>> /\ Keep
       ELSE IF c = 0 THEN pc' = back /\ UNCHANGED <<S, xd>> /\ Still /\ Keep
       ELSE \/ Fail
            \/ /\ S' = [S EXCEPT ![T] = IF Variant = "double keeps length" THEN @ ELSE Append(@, 1)]
               /\ pc' = back /\ UNCHANGED xd /\ Still /\ Keep
Gather ==
    /\ pc = "gather"
    /\ IF Len(S["res"]) >= Len(S["q"]) THEN Loop("add", "res", "q", "outer") /\ UNCHANGED <<S, xd>>
       ELSE Loop("add", "q", "res", "swap") /\ UNCHANGED <<S, xd>>
    /\ Keep
Swap == /\ pc = "swap" /\ Local("res", IF Variant = "lose quotient" THEN S["res"] ELSE S["q"])
        /\ pc' = "outer" /\ Still /\ UNCHANGED xd /\ Keep

Done == pc \in {"ret", "raise"} /\ UNCHANGED vars
Next == \/ Special \/ Start \/ Take \/ Ending \/ Add \/ Sub \/ Mul \/ Column \/ Multiplied
        \/ Div \/ Outer \/ Inner \/ Inner2 \/ Double \/ Gather \/ Swap \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(***************************************************************************)
(* What is checked.                                                        *)
(***************************************************************************)
X == [d |-> xd, s |-> S["x"]]
N0 == IF alias THEN x0 ELSE y0
Correct == pc = "ret" => (Legal(op, x0, N0, X) /\ S["y"] = y0.s /\ yd = y0.d)
Failed == pc = "raise" => (Inf(X) /\ X.s = <<>> /\ S["y"] = y0.s /\ yd = y0.d)
Returns == <>(pc \in {"ret", "raise"})
DigitsLegal == \A n \in DOMAIN S : \A j \in 1..Len(S[n]) : S[n][j] \in 0..M
OtherUntouched == S["y"] = y0.s /\ yd = y0.d

V(s) == ToNat(Base, s)
(* the quotient so far and what is left of the dividend *)
DivisionLoop == pc \in {"outer", "inner", "gather"} =>
    (LET part == IF pc = "gather" THEN V(S["q"]) * V(S["div"]) ELSE 0
     IN  V(x0.s) = V(S["x"]) + part + V(S["res"]) * V(S["div"]))
DoublingLoop == pc = "inner" => /\ V(S["b0"]) = V(S["q"]) * V(S["div"])
                                /\ V(S["b1"]) = 2 * V(S["b0"])
                                /\ V(S["b0"]) <= V(S["x"])
ColumnLoop == pc = "column" =>
    V(S["ret"]) + c * Base ^ i =
    FoldLeft(LAMBDA acc, k : acc + ProdCol(S["x"], S[Num], k) * Base ^ (k - 1), 0, [k \in 1..i |-> k])
(* the carry of an addition is a carry, never more *)
CarryIsBit == pc \in {"add", "sub", "double"} => c \in {0, 1}
CompareIsOrder == \A a, b \in {S["x"], S["y"]} : Ge(a, b) <=> Cmp(a, b) >= 0
=============================================================================
