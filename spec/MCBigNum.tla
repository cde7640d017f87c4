------------------------------ MODULE MCBigNum ------------------------------
(***************************************************************************)
(* BigNum.tla at small scope, explored completely: every pool of           *)
(* Cardinality(Regs) numbers of at most L digits in base Base, every call, *)
(* every legal result of the call.                                         *)
(*                                                                         *)
(* 1. The specification is sane: what it calls legal is what integer       *)
(*    arithmetic, the order of the extended number line and the sequence   *)
(*    operations say (invariants below, on all pairs of numbers).          *)
(* 2. It is a test generator: with EMIT set in the environment, every      *)
(*    transition of the state graph is written out as the calls that lead  *)
(*    to its source plus the call itself (file EMIT, one line each).  The  *)
(*    checks replay them into the real code, in every number type, and     *)
(*    validate the recorded traces.                                        *)
(***************************************************************************)
EXTENDS BigNum, Integers, TLC, IOUtils
CONSTANTS Base, L, Regs, Calls
VARIABLES path

Digits0 == 0..(Base - 1)
Seqs(n) == UNION {[1..m -> Digits0] : m \in 0..n}
FinNums(n) == [d : {"pos", "neg"}, s : Seqs(n)]
Specials == [d : {"nan", "+inf", "-inf"}, s : {<<>>}]
Nums(n) == FinNums(n) \cup Specials

(* candidates for a result; none of the legal ones is longer *)
Room(op, x, y) == CASE op \in {"+", "-"} -> Max2(Size(x), Size(y)) + 1
                    [] op = "*" -> Size(x) + Size(y)
                    [] op = "/" -> Max2(Size(x), 1)
NumsUpTo == [n \in 0..(2 * L + 2) |-> Nums(n)]
Results(op, x, y) == {r \in NumsUpTo[Room(op, x, y)] : Legal(op, x, y, r)}

S(x) == ToString(x)
Emitting == "EMIT" \in DOMAIN IOEnv
Write(p) == Serialize(S(p) \o "\n", IOEnv.EMIT,
    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Say(cmd) == /\ path' = Append(path, cmd)
            /\ Emitting => Write(path')
Put(i, r) == [pool EXCEPT ![i] = r]
W(k) == k \in Calls

Init == /\ ty = [B |-> Base, k |-> 1]
        /\ pool = [i \in Regs |-> [d |-> "pos", s |-> <<>>]]
        /\ path = <<>>

Arith == \E op \in Ops, a, b \in Regs :
    \E r \in Results(op, pool[a], pool[b]) :
        \/ /\ W("cmpd") /\ Compound(op, a, b, Put(a, r))
           /\ Say("cmpd " \o op \o " " \o S(a) \o " " \o S(b))
        \/ \E t \in Regs :
            /\ Binary(op, t, a, b, Put(t, r))
            /\ \/ W("bin") /\ Say("bin " \o op \o " " \o S(t) \o " " \o S(a) \o " " \o S(b))
               \/ W("sto") /\ Say("sto " \o op \o " " \o S(t) \o " " \o S(a) \o " " \o S(b))
Copying == \E t, a \in Regs :
    \/ /\ W("copy") /\ Copy(t, a, Put(t, pool[a]))
       /\ \/ Say("copy " \o S(t) \o " " \o S(a)) \/ Say("cctor " \o S(t) \o " " \o S(a))
    (* what the library leaves behind in the source is not said: here, nothing *)
    \/ /\ W("move") /\ Move(t, a, 0, [Put(t, pool[a]) EXCEPT ![a] = [d |-> "pos", s |-> <<>>]])
       /\ \/ Say("move " \o S(t) \o " " \o S(a)) \/ Say("mctor " \o S(t) \o " " \o S(a))
    \/ /\ W("move") /\ Exchange(t, a, 0, [Put(t, pool[a]) EXCEPT ![a] = pool[t]])
       /\ Say("swap " \o S(t) \o " " \o S(a))
Looking == \E a \in Regs :
    \/ \E b \in Regs : /\ W("cmp") /\ Compare(a, b, CmpResults(pool[a], pool[b]), pool)
                       /\ Say("cmp " \o S(a) \o " " \o S(b))
    \/ W("print") /\ Output(a, TextOf(pool[a]), pool) /\ Say("print " \o S(a))
    \/ W("query") /\ Query(a, Queries(pool[a]), Size(pool[a]), pool[a].d, pool) /\ Say("query " \o S(a))
    \/ \E p \in 0..(L + 1) :
        LET inRange == p < Size(pool[a])
            got == IF inRange THEN DigitAt(pool[a], p + 1) ELSE <<0>>
            x == IF inRange THEN "" ELSE "bn_error"
            e == IF inRange THEN 0 ELSE 1
        IN  /\ W("idx")
            /\ \/ /\ Index(a, p, <<>>, x, got, 0, e, pool)
                  /\ \/ Say("idx " \o S(a) \o " " \o S(p)) \/ Say("idxc " \o S(a) \o " " \o S(p))
               \/ \E d \in Digits0 :
                  /\ Index(a, p, <<d>>, x, <<d>>, 0, e,
                           IF inRange THEN [pool EXCEPT ![a].s[p + 1] = d] ELSE pool)
                  /\ Say("idxw " \o S(a) \o " " \o S(p) \o " " \o S(d))
ListText(q) == FoldLeft(LAMBDA acc, d : acc \o " " \o S(d), "", q)
Editing == \E a \in Regs :
    \/ \E kind \in {"pos", "neg"}, q \in Seqs(L) :
        /\ W("ctor")
        /\ Construct(a, kind, [i \in 1..Len(q) |-> <<q[i]>>],
                     Put(a, [d |-> kind, s |-> Limbs(Reverse(DropLeading([i \in 1..Len(q) |-> <<q[i]>>])))]))
        /\ Say("ctor " \o S(a) \o " " \o kind \o " " \o S(Len(q)) \o ListText(q))
    \/ /\ W("edit") /\ Finite(pool[a])
       /\ \/ \E d \in Digits0, e \in {"pushf", "pushb"} :
              /\ Edit([op |-> e, dig |-> <<d>>], a, Put(a, [d |-> pool[a].d, s |-> Limbs(Edited([op |-> e, dig |-> <<d>>], pool[a]))]))
              /\ Say(e \o " " \o S(a) \o " " \o S(d))
          \/ \E e \in {"popf", "popb"} :
              /\ Size(pool[a]) > 0
              /\ Edit([op |-> e], a, Put(a, [d |-> pool[a].d, s |-> Limbs(Edited([op |-> e], pool[a]))]))
              /\ Say(e \o " " \o S(a))
          \/ \E d \in Digits0, p \in 0..Size(pool[a]) :
              LET e == [op |-> "pushat", pos |-> p, dig |-> <<d>>]
              IN  /\ Edit(e, a, Put(a, [d |-> pool[a].d, s |-> Limbs(Edited(e, pool[a]))]))
                  /\ Say("pushat " \o S(a) \o " " \o S(p) \o " " \o S(d))
          \/ \E p \in 0..(Size(pool[a]) - 1) :
              LET e == [op |-> "popat", pos |-> p]
              IN  /\ Edit(e, a, Put(a, [d |-> pool[a].d, s |-> Limbs(Edited(e, pool[a]))]))
                  /\ Say("popat " \o S(a) \o " " \o S(p))
          \/ \E d \in Digits0, p \in 0..(L + 1) :
              LET e == [op |-> "resize", pos |-> p, dig |-> <<d>>]
              IN  /\ Edit(e, a, Put(a, [d |-> pool[a].d, s |-> Limbs(Edited(e, pool[a]))]))
                  /\ Say("resize " \o S(a) \o " " \o S(p) \o " " \o S(d))
          \/ /\ Clear(a, Put(a, [d |-> "pos", s |-> <<>>])) /\ Say("clear " \o S(a))
    \/ \E kind \in Kinds :
          /\ W("setk")
          /\ SetKind(a, kind, Put(a, [d |-> kind, s |-> IF kind \in {"pos", "neg"} THEN pool[a].s ELSE <<>>]))
          /\ Say("setk " \o S(a) \o " " \o kind)
Next == Arith \/ Copying \/ Looking \/ Editing
Spec == Init /\ [][Next]_<<ty, pool, path>>
Small == \A i \in Regs : Size(pool[i]) <= L
PoolView == pool

(***************************************************************************)
(* What is checked of the specification, on every pair of numbers.         *)
(***************************************************************************)
Value(n) == Sgn(n) * ToNat(ty.B, n.s)
TypeOK == \A i \in Regs : pool[i] \in Nums(2 * L + 1)

(* truncated division *)
Abs(x) == IF x < 0 THEN -x ELSE x
TDiv(x, y) == LET q == Abs(x) \div Abs(y) IN IF (x < 0) # (y < 0) THEN -q ELSE q
IntOp(op, x, y) == CASE op = "+" -> x + y [] op = "-" -> x - y
                     [] op = "*" -> x * y [] op = "/" -> TDiv(x, y)
Computable(op, x, y) == Finite(x) /\ Finite(y) /\ ~(op = "/" /\ ZeroVal(y))

X == pool[1]
Y == pool[2]
Canon(n) == IF Finite(n) THEN [d |-> IF ZeroVal(n) THEN "pos" ELSE n.d, s |-> Trim(n.s)] ELSE n
(* R: the legal results of X op Y *)
(* every call has a result, and all its results are the same number ...    *)
OneValue(R) == R # {} /\ \A r1, r2 \in R : Same(r1, r2)
(* ... the one integer arithmetic gives *)
AsIntegers(op, R) == Computable(op, X, Y) =>
    \A r \in R : Finite(r) /\ Value(r) = IntOp(op, Value(X), Value(Y))
(* canonical operands have canonical results; only zero has two spellings  *)
OneForm(R) == (NoLeadingZero(X) /\ NoLeadingZero(Y)) =>
    /\ \A r \in R : NoLeadingZero(r)
    /\ Cardinality(R) <= 2
    /\ Cardinality(R) = 2 => \A r \in R : ZeroVal(r)
(* the result depends on the operands' values only, not on how they are    *)
(* spelled (except on the sign a zero divisor is marked with)              *)
ByValue(op, R) == (op = "/" /\ ZeroVal(Y)) \/ (X = Canon(X) /\ Y = Canon(Y)) \/
    \A Q \in {Results(op, Canon(X), Canon(Y))} : \A r \in R, q \in Q : Same(r, q)
NaNStays(R) == (NaN(X) \/ NaN(Y)) => R = {[d |-> "nan", s |-> <<>>]}
Arithmetic == \A op \in Ops : \A R \in {Results(op, X, Y)} :
    OneValue(R) /\ AsIntegers(op, R) /\ OneForm(R) /\ ByValue(op, R) /\ NaNStays(R)
(* order *)
OrderIsInts == (Finite(X) /\ Finite(Y)) =>
    CmpResults(X, Y) = LET x == Value(X) y == Value(Y) IN <<x = y, x # y, x < y, x <= y, x > y, x >= y>>
OrderLaws == LET c == CmpResults(X, Y)  k == CmpResults(Y, X)
             IN  /\ c[1] = k[1] /\ c[2] = ~c[1] /\ c[3] = k[5] /\ c[4] = k[6]
                 /\ ~(NaN(X) \/ NaN(Y)) => Cardinality({i \in {1, 3, 5} : c[i]}) = 1
                 /\ (NaN(X) \/ NaN(Y)) => ~c[3] /\ ~c[4] /\ ~c[5] /\ ~c[6]
                 /\ (NaN(X) /\ NaN(Y)) => c[1]
Transitive == \A z \in Nums(L) :
    (~NaN(X) /\ ~NaN(Y) /\ ~NaN(z) /\ Order(X, Y) <= 0 /\ Order(Y, z) <= 0) => Order(X, z) <= 0
(* laws a caller uses; up to Same *)
First(op, x, y) == CHOOSE r \in Results(op, x, y) : TRUE
Laws == \A sum \in {First("+", X, Y)}, prod \in {First("*", X, Y)} :
            /\ Same(sum, First("+", Y, X)) /\ Same(prod, First("*", Y, X))
            /\ (Finite(X) /\ Finite(Y)) =>
                /\ Same(First("-", sum, Y), X)
                /\ ~ZeroVal(Y) => Same(First("/", prod, Y), X)
                /\ ~ZeroVal(Y) =>
                    \A q \in {First("/", X, Y)} : \A rest \in {First("-", X, First("*", q, Y))} :
                        /\ Same(First("+", First("*", q, Y), rest), X)
                        /\ Abs(Value(rest)) < Abs(Value(Y))
            /\ Same(First("-", X, Y), First("+", X, [d |-> (CASE Y.d = "pos" -> "neg" [] Y.d = "neg" -> "pos"
                       [] Y.d = "+inf" -> "-inf" [] Y.d = "-inf" -> "+inf" [] OTHER -> "nan"), s |-> Y.s]))
(* texts: a canonical number of a base of at most ten can be read back *)
TextInjective == (Base <= 10 /\ NoLeadingZero(X) /\ NoLeadingZero(Y) /\ TextOf(X) = TextOf(Y))
    => (Same(X, Y) /\ X.d = Y.d)
(* a digit sequence survives each edit and its opposite *)
EditsUndo == \A d \in {<<0>>, <<Base - 1>>} :
    LET e(k, p) == [op |-> k, pos |-> p, dig |-> d]
        with(n, ds) == [d |-> n.d, s |-> Limbs(ds)]
    IN  /\ Edited([op |-> "popf"], with(X, Edited(e("pushf", 0), X))) = Digits(X)
        /\ Edited([op |-> "popb"], with(X, Edited(e("pushb", 0), X))) = Digits(X)
        /\ \A p \in 0..Size(X) : Edited([op |-> "popat", pos |-> p], with(X, Edited(e("pushat", p), X))) = Digits(X)
        /\ Edited(e("pushat", 0), X) = Edited(e("pushf", 0), X)
        /\ Edited(e("pushat", Size(X)), X) = Edited(e("pushb", 0), X)
        /\ Edited(e("resize", Size(X)), with(X, Edited(e("resize", Size(X) + 2), X))) = Digits(X)
=============================================================================
