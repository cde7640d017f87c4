------------------------------- MODULE IntType -------------------------------
(***************************************************************************)
(* The fixed-width digit integer (BNIntType) of hamsham/BigNum.            *)
(*                                                                         *)
(* State: registers that hold words.  A word is a sequence of bytes, least *)
(* significant first; `w` is how many (1, 2, 4 or 8).  Some registers are  *)
(* objects of the digit type, others built-in integers of its underlying   *)
(* type: the API mixes them freely and the meaning is always the same,     *)
(* unsigned arithmetic modulo 256^w.                                       *)
(*                                                                         *)
(* One action per operator form; `mem` after the call is part of the       *)
(* claim, so that a plain form which changes an operand has no action.     *)
(***************************************************************************)
EXTENDS BigNat, Bitwise

VARIABLES w,     \* bytes per word
          mem    \* register -> word

(***************************************************************************)
(* Words.                                                                  *)
(***************************************************************************)
IsWord(x)  == Len(x) = w /\ \A i \in 1..w : x[i] \in 0..255
Low(s)     == [i \in 1..w |-> At(s, i)]
Zero       == [i \in 1..w |-> 0]
One        == [i \in 1..w |-> IF i = 1 THEN 1 ELSE 0]
Wrap(cols) == ColumnsNormal(256, cols)[1]
Pow2(k)    == [i \in 1..(k \div 8 + 1) |-> IF i = k \div 8 + 1 THEN 2 ^ (k % 8) ELSE 0]

(* shift counts are small; what a count of 2^31 means is not specified     *)
CountOf(y) == IF \A i \in 2..w : y[i] = 0 THEN y[1] ELSE 256

(* the language leaves division by zero and long shifts undefined; a word   *)
(* narrower than the machine's int may be shifted by more than its width    *)
MaxShift == IF w = 8 THEN 63 ELSE 31
Defined(op, x, y) ==
    CASE op \in {"/", "%"}   -> ~IsZeroSeq(y)
      [] op \in {"<<", ">>"} -> CountOf(y) <= MaxShift
      [] OTHER -> TRUE

Sum(x, y)     == Wrap([i \in 1..w |-> x[i] + y[i]])
Diff(x, y)    == Wrap([i \in 1..w |-> x[i] - y[i]])
Prod(x, y)    == Wrap([k \in 1..w |-> ProdCol(x, y, k)])
ShiftL(x, k)  == Low(MulSeq(256, x, Pow2(k)))
ShiftR(x, k)  == Low(DivModSeq(256, x, Pow2(k))[1])
BinaryWord(op, x, y) ==
    CASE op = "+"  -> Sum(x, y)
      [] op = "-"  -> Diff(x, y)
      [] op = "*"  -> Prod(x, y)
      [] op = "/"  -> Low(DivModSeq(256, x, Trim(y))[1])
      [] op = "%"  -> Low(DivModSeq(256, x, Trim(y))[2])
      [] op = "&"  -> [i \in 1..w |-> x[i] & y[i]]
      [] op = "|"  -> [i \in 1..w |-> x[i] | y[i]]
      [] op = "^"  -> [i \in 1..w |-> x[i] ^^ y[i]]
      [] op = "<<" -> ShiftL(x, CountOf(y))
      [] op = ">>" -> ShiftR(x, CountOf(y))
UnaryWord(op, x) ==
    CASE op = "!" -> IF IsZeroSeq(x) THEN One ELSE Zero
      [] op = "+" -> x
      [] op = "-" -> Diff(Zero, x)
      [] op = "~" -> [i \in 1..w |-> 255 - x[i]]
Compared(op, x, y) ==
    LET c == Cmp(x, y)
    IN  CASE op = "==" -> c = 0
          [] op = "!=" -> c # 0
          [] op = "<"  -> c = -1
          [] op = "<=" -> c # 1
          [] op = ">"  -> c = 1
          [] op = ">=" -> c # -1
Arith == {"+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"}
Tests == {"==", "!=", "<", "<=", ">", ">="}

(***************************************************************************)
(* Actions.  P: the registers after the call.                              *)
(***************************************************************************)
Becomes(P) == mem' = P /\ UNCHANGED w

Plain(op, a, b, res, P) ==
    /\ op \in Arith /\ Defined(op, mem[a], mem[b])
    /\ res = BinaryWord(op, mem[a], mem[b])
    /\ P = mem /\ Becomes(P)
Test(op, a, b, res, P) ==
    /\ op \in Tests
    /\ res = Compared(op, mem[a], mem[b])
    /\ P = mem /\ Becomes(P)
(* a op= b, possibly the same object; `self`: a reference to a came back   *)
Assigning(op, a, b, self, P) ==
    /\ op \in Arith /\ Defined(op, mem[a], mem[b])
    /\ self
    /\ P = [mem EXCEPT ![a] = BinaryWord(op, mem[a], mem[b])] /\ Becomes(P)
Unary(op, a, res, P) ==
    /\ res = UnaryWord(op, mem[a])
    /\ P = mem /\ Becomes(P)
(* ++a, --a return a; a++, a-- the old value *)
Step(op, postfix, a, res, self, P) ==
    LET new == IF op = "++" THEN Sum(mem[a], One) ELSE Diff(mem[a], One)
    IN  /\ res = IF postfix THEN mem[a] ELSE new
        /\ self = ~postfix
        /\ P = [mem EXCEPT ![a] = new] /\ Becomes(P)
(* assignment in any of its forms, construction and conversion *)
Store(a, b, self, P) ==
    /\ self
    /\ P = [mem EXCEPT ![a] = mem[b]] /\ Becomes(P)
Clear(a, P) ==          \* default construction
    /\ P = [mem EXCEPT ![a] = Zero] /\ Becomes(P)

(***************************************************************************)
(* Streams carry the value: a one-byte word is one character, the others   *)
(* are decimal numerals.                                                   *)
(***************************************************************************)
Numeral(x) ==
    LET t == Rebase(256, 10, Trim(x))
    IN  IF t = <<>> THEN <<48>> ELSE [i \in 1..Len(t) |-> 48 + t[Len(t) + 1 - i]]
TextOf(x) == IF w = 1 THEN x ELSE Numeral(x)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexNumeral(x) ==
    LET t == Rebase(256, 16, Trim(x))
    IN  IF t = <<>> THEN <<48>> ELSE [i \in 1..Len(t) |-> HexDigit(t[Len(t) + 1 - i])]
TextIn(x, hex) == IF hex /\ w > 1 THEN HexNumeral(x) ELSE TextOf(x)
WriteTo(a, text, self, P) ==
    /\ self
    /\ text = TextOf(mem[a])
    /\ P = mem /\ Becomes(P)
(* two words among other things on one stream: [a 255 b 1.5 1   -7]         *)
WriteAmong(a, b, text, self, P) ==
    /\ self
    /\ text = <<91>> \o TextOf(mem[a]) \o <<32, 50, 53, 53, 32>> \o TextOf(mem[b])
                     \o <<32, 49, 46, 53, 32, 49, 32, 32, 32, 45, 55, 93>>
    /\ P = mem /\ Becomes(P)
(* two words and the built-in number `rest` = 255 from one stream          *)
ReadTwo(a, b, text, rest, self, P) ==
    /\ self /\ a # b /\ rest = 255
    /\ text = TextOf(P[a]) \o <<32>> \o TextOf(P[b]) /\ IsWord(P[a]) /\ IsWord(P[b])
    /\ \A i \in DOMAIN mem \ {a, b} : P[i] = mem[i]
    /\ Becomes(P)
(* text: what the stream holds; a prefix may be white space *)
Skip(text) == LET k == SelectInSeq(text, LAMBDA c : c # 32)
              IN  IF k = 0 THEN <<>> ELSE SubSeq(text, k, Len(text))
(* does the text (a numeral without leading zeros and nothing else, or no   *)
(* numeral at all) hold a word?                                             *)
IsNumeral(t, hex) == t # <<>> /\ \A i \in DOMAIN t : t[i] \in 48..57 \/ (hex /\ t[i] \in 97..102)
Readable(t, hex) ==
    IF w = 1 THEN t # <<>>
    ELSE /\ IsNumeral(t, hex)
         /\ LET n == Len(t)
                v == [i \in 1..n |-> IF t[n + 1 - i] > 90 THEN t[n + 1 - i] - 87 ELSE t[n + 1 - i] - 48]
            IN  Len(Trim(Rebase(IF hex THEN 16 ELSE 10, 256, Trim(v)))) <= w
ReadFrom(a, text, ok, hex, self, P) ==
    /\ self
    /\ ok = Readable(Skip(text), hex)
    /\ ok => TextIn(P[a], hex) = Skip(text)
    /\ IsWord(P[a])
    /\ \A i \in DOMAIN mem \ {a} : P[i] = mem[i]
    /\ Becomes(P)
(* nothing comes from a stream that has failed *)
ReadNothing(ok, self, P) == self /\ ~ok /\ P = mem /\ Becomes(P)
(* in a field of ten stars, then |ff|***7 *)
WriteHex(a, text, self, P) ==
    /\ self
    /\ LET t == TextIn(mem[a], TRUE)
       IN  text = [i \in 1..Max2(0, 10 - Len(t)) |-> 42] \o t \o <<124, 102, 102, 124, 42, 42, 42, 55>>
    /\ P = mem /\ Becomes(P)

(***************************************************************************)
(* One-byte words, a whole row of the operator's table at a time: the call *)
(* made for every right operand lo .. lo+n-1, on fresh objects.            *)
(* `kept`: no operand changed that the form must not change; `self`: every *)
(* assigning form returned its left operand.                               *)
(***************************************************************************)
ByteOp(op, x, y) ==
    CASE op = "+"  -> (x + y) % 256
      [] op = "-"  -> (x - y) % 256
      [] op = "*"  -> (x * y) % 256
      [] op = "/"  -> x \div y
      [] op = "%"  -> x % y
      [] op = "&"  -> x & y
      [] op = "|"  -> x | y
      [] op = "^"  -> x ^^ y
      [] op = "<<" -> IF y > 7 THEN 0 ELSE (x * 2 ^ y) % 256
      [] op = ">>" -> IF y > 7 THEN 0 ELSE x \div 2 ^ y
ByteTest(op, x, y) ==
    CASE op = "==" -> x = y [] op = "!=" -> x # y
      [] op = "<" -> x < y  [] op = "<=" -> x <= y
      [] op = ">" -> x > y  [] op = ">=" -> x >= y
ByteUnary(op, x) ==
    CASE op = "!" -> (IF x = 0 THEN 1 ELSE 0)
      [] op = "+" -> x
      [] op = "-" -> (256 - x) % 256
      [] op = "~" -> 255 - x
Row(op, x, lo, res, kept, self, P) ==
    /\ w = 1 /\ kept /\ self
    /\ IF op \in Arith
       THEN \A i \in 1..Len(res) : res[i] = ByteOp(op, x, lo + i - 1)
       ELSE \A i \in 1..Len(res) : res[i] = (IF ByteTest(op, x, lo + i - 1) THEN 1 ELSE 0)
    /\ P = mem /\ Becomes(P)
(* every value of the single operand *)
UnaryRow(op, res, kept, self, P) ==
    /\ w = 1 /\ kept /\ self /\ Len(res) = 256
    /\ \A x \in 0..255 : res[x + 1] =
          (CASE op \in {"!", "u+", "u-", "~"} ->
                     ByteUnary(IF op = "u+" THEN "+" ELSE IF op = "u-" THEN "-" ELSE op, x)
             [] op \in {"++x", "++x stored", "x++ stored"} -> (x + 1) % 256
             [] op \in {"--x", "--x stored", "x-- stored"} -> (x - 1) % 256
             [] op \in {"x++", "x--"} -> x)
    /\ P = mem /\ Becomes(P)
=============================================================================
