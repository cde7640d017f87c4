------------------------------- MODULE BigNum -------------------------------
(***************************************************************************)
(* hamsham/BigNum as a state machine.                                      *)
(*                                                                         *)
(* State: a pool of number objects of one number type.  Transitions: one   *)
(* named action per public API call (the library is sequential, so a call  *)
(* is one atomic step and its linearization point is its return).          *)
(*                                                                         *)
(* A number type has a base; a digit of the base is written as `k` limbs   *)
(* in a smaller limb base `B` (digit base = B^k), because 2^32 does not    *)
(* fit TLC's integers.  For the small bases k = 1 and limbs are digits.    *)
(*                                                                         *)
(* Every action takes the successor contents it claims (`r`) and says      *)
(* which contents are legal, rather than computing one: the library may    *)
(* represent zero by no digit or by a zero digit, and callers may create   *)
(* leading zeros, so a value has several representations.                  *)
(*                                                                         *)
(* `Obl` selects which obligations are enforced.  All of them together are *)
(* the specification; a check of a single property enforces that           *)
(* property's obligations and merely follows the rest of the behaviour, so *)
(* that a violation is attributed to the property it violates.             *)
(***************************************************************************)
EXTENDS BigNat, FiniteSets

CONSTANT Obl
AllObl == {"value", "div0", "special", "form", "frame", "copy", "cmp", "text",
           "edit", "index", "diag", "alloc", "law", "raw"}

(* "= TRUE": TLC is to evaluate an obligation, not to search it for steps   *)
Must(o, P) == (IF o \in Obl THEN P ELSE TRUE) = TRUE
MustAny(S, P) == (IF S \cap Obl # {} THEN P ELSE TRUE) = TRUE

VARIABLES ty,     \* [B |-> limb base, k |-> limbs per digit]
          pool    \* register -> [d |-> kind, s |-> limbs, least significant first]

Kinds == {"pos", "neg", "nan", "+inf", "-inf"}
Ops   == {"+", "-", "*", "/"}

(***************************************************************************)
(* Observers of a single number.                                           *)
(***************************************************************************)
Finite(n)   == n.d \in {"pos", "neg"}
Inf(n)      == n.d \in {"+inf", "-inf"}
NaN(n)      == n.d = "nan"
MarkedNeg(n)== n.d \in {"neg", "-inf"}
ZeroVal(n)  == Finite(n) /\ IsZeroSeq(n.s)
Sgn(n)      == IF IsZeroSeq(n.s) THEN 0 ELSE IF n.d = "neg" THEN -1 ELSE 1
Size(n)     == Len(n.s) \div ty.k
DigitAt(n, i) == SubSeq(n.s, (i - 1) * ty.k + 1, i * ty.k)    \* i in 1..Size(n)
Digits(n)   == [i \in 1..Size(n) |-> DigitAt(n, i)]
Limbs(ds)   == [i \in 1..(ty.k * Len(ds)) |-> ds[(i - 1) \div ty.k + 1][((i - 1) % ty.k) + 1]]
ZeroDigit   == [i \in 1..ty.k |-> 0]

LegalDigits(n) == /\ Len(n.s) % ty.k = 0
                  /\ \A i \in 1..Len(n.s) : n.s[i] \in 0..(ty.B - 1)
(* no leading zero digit; zero is written with no digit or one zero digit  *)
NoLeadingZero(n) == \/ Size(n) = 0
                    \/ ~IsZeroSeq(DigitAt(n, Size(n)))
                    \/ Size(n) = 1

(***************************************************************************)
(* Order on the extended number line (C05).                                *)
(***************************************************************************)
LinePos(n) == IF n.d = "-inf" THEN -2 ELSE IF n.d = "+inf" THEN 2 ELSE Sgn(n)
(* -1, 0, 1; only for operands that are not NaN *)
Order(x, y) ==
    LET p == LinePos(x)  q == LinePos(y)
    IN  IF p # q THEN (IF p < q THEN -1 ELSE 1)
        ELSE IF p = 1 THEN Cmp(x.s, y.s)
        ELSE IF p = -1 THEN Cmp(y.s, x.s)
        ELSE 0
Same(x, y) == IF NaN(x) \/ NaN(y) THEN NaN(x) /\ NaN(y) ELSE Order(x, y) = 0

(* [==, !=, <, <=, >, >=] *)
CmpResults(x, y) ==
    IF NaN(x) \/ NaN(y)
    THEN <<Same(x, y), ~Same(x, y), FALSE, FALSE, FALSE, FALSE>>
    ELSE LET o == Order(x, y)
         IN  <<o = 0, o # 0, o < 0, o <= 0, o > 0, o >= 0>>

(***************************************************************************)
(* Arithmetic: which results are legal.                                    *)
(***************************************************************************)
(* finite operands, divisor not zero: the exact value *)
ExactValue(op, x, y, r) ==
    /\ Finite(r)
    /\ CASE op = "+" -> IsSignedSum(ty.B, Sgn(x), x.s,  Sgn(y), y.s, Sgn(r), r.s)
         [] op = "-" -> IsSignedSum(ty.B, Sgn(x), x.s, -Sgn(y), y.s, Sgn(r), r.s)
         [] op = "*" -> /\ IsProduct(ty.B, x.s, y.s, r.s)
                        /\ Sgn(r) = Sgn(x) * Sgn(y)
         [] op = "/" -> /\ IsQuotient(ty.B, x.s, y.s, r.s)
                        /\ Sgn(r) \in {0, Sgn(x) * Sgn(y)}

DivisionByZero(x, y, r) ==
    r.d = IF MarkedNeg(x) = MarkedNeg(y) THEN "+inf" ELSE "-inf"

Opposite(d) == IF d = "+inf" THEN "-inf" ELSE "+inf"
SignedInf(x, y) == IF MarkedNeg(x) = MarkedNeg(y) THEN "+inf" ELSE "-inf"

(* at least one operand is NaN or infinite: the kind of the result, where  *)
(* "zero" stands for any finite zero                                       *)
SpecialKind(op, x, y) ==
    IF NaN(x) \/ NaN(y) THEN "nan"
    ELSE CASE op = "+" -> IF Inf(x) /\ Inf(y) THEN (IF x.d = y.d THEN x.d ELSE "nan")
                          ELSE IF Inf(x) THEN x.d ELSE y.d
           [] op = "-" -> IF Inf(x) /\ Inf(y) THEN (IF x.d # y.d THEN x.d ELSE "nan")
                          ELSE IF Inf(x) THEN x.d ELSE Opposite(y.d)
           [] op = "*" -> IF ZeroVal(x) \/ ZeroVal(y) THEN "nan" ELSE SignedInf(x, y)
           [] op = "/" -> IF Inf(x) /\ Inf(y) THEN "nan"
                          ELSE IF Inf(y) THEN "zero" ELSE SignedInf(x, y)
SpecialValue(op, x, y, r) ==
    LET kind == SpecialKind(op, x, y)
    IN  IF kind = "zero" THEN ZeroVal(r) ELSE r.d = kind /\ r.s = <<>>

(* representation of a result (C07) *)
FormOK(x, y, r) ==
    /\ LegalDigits(r)
    /\ ~Finite(r) => r.s = <<>>
    /\ ZeroVal(r) => r.d = "pos"
    /\ (NoLeadingZero(x) /\ NoLeadingZero(y)) => NoLeadingZero(r)

Legal(op, x, y, r) ==
    /\ IF ~Finite(x) \/ ~Finite(y) THEN Must("special", SpecialValue(op, x, y, r))
       ELSE IF op = "/" /\ IsZeroSeq(y.s) THEN Must("div0", DivisionByZero(x, y, r))
       ELSE Must("value", ExactValue(op, x, y, r))
    /\ Must("form", FormOK(x, y, r))

(***************************************************************************)
(* Text (C10): a function of the stored state, as a sequence of ASCII      *)
(* codes.                                                                  *)
(***************************************************************************)
Decimal(limbs) == LET t == Rebase(ty.B, 10, limbs)
                  IN  IF t = <<>> THEN <<48>> ELSE [i \in 1..Len(t) |-> 48 + t[Len(t) + 1 - i]]
(* digits lo+1..hi counted from the most significant; halved because long  *)
(* concatenations are quadratic in TLC                                     *)
RECURSIVE Numerals(_, _, _)
Numerals(n, lo, hi) ==
    IF hi - lo <= 64 THEN FlattenSeq([i \in 1..(hi - lo) |-> Decimal(DigitAt(n, Size(n) + 1 - lo - i))])
    ELSE LET mid == (lo + hi) \div 2 IN Numerals(n, lo, mid) \o Numerals(n, mid, hi)
TextOf(n) ==
    CASE n.d = "+inf" -> <<43, 73, 78, 70>>
      [] n.d = "-inf" -> <<45, 73, 78, 70>>
      [] n.d = "nan"  -> <<78, 97, 78>>
      [] OTHER -> (IF n.d = "neg" THEN <<45>> ELSE <<>>) \o
                  (IF Size(n) = 0 THEN <<48>>
                   ELSE Numerals(n, 0, Size(n)))

(***************************************************************************)
(* Digit editing (C09): the digit sequence afterwards.                     *)
(* Positions are the API's zero-based indices.                             *)
(***************************************************************************)
DropLeading(l) == LET n == SelectInSeq(l, LAMBDA x : ~IsZeroSeq(x))
                  IN  IF n = 0 THEN <<>> ELSE SubSeq(l, n, Len(l))
Edited(e, n) ==
    LET ds == Digits(n)  z == Len(ds)
    IN  CASE e.op = "resize" -> IF e.pos <= z THEN SubSeq(ds, 1, e.pos)
                                ELSE ds \o [i \in 1..(e.pos - z) |-> e.dig]
          [] e.op = "pushf" -> <<e.dig>> \o ds
          [] e.op = "popf"  -> Tail(ds)
          [] e.op = "pushb" -> Append(ds, e.dig)
          [] e.op = "popb"  -> SubSeq(ds, 1, z - 1)
          [] e.op = "pushat"-> SubSeq(ds, 1, e.pos) \o <<e.dig>> \o SubSeq(ds, e.pos + 1, z)
          [] e.op = "popat" -> SubSeq(ds, 1, e.pos) \o SubSeq(ds, e.pos + 2, z)
EditEnabled(e, n) ==
    CASE e.op \in {"popf", "popb"} -> Size(n) > 0
      [] e.op = "pushat" -> e.pos <= Size(n)
      [] e.op = "popat"  -> e.pos < Size(n)
      [] OTHER -> TRUE

Queries(n) ==   \* isPositive, isNegative, isInfinite, isNan, isComputable
    <<n.d \in {"pos", "+inf"}, n.d \in {"neg", "-inf"}, Inf(n), NaN(n), Finite(n)>>

(***************************************************************************)
(* Actions.  P is the pool the implementation is in after the call; an     *)
(* action names the registers the call may write.                          *)
(***************************************************************************)
Frame(P, W) == \A i \in DOMAIN pool \ W : P[i] = pool[i]
Becomes(P) == pool' = P /\ UNCHANGED ty

(* t := a op b *)
Binary(op, t, a, b, P) ==
    /\ Legal(op, pool[a], pool[b], P[t])
    /\ Must("frame", Frame(P, {t}))
    /\ Becomes(P)
(* a op= b, possibly a = b *)
Compound(op, a, b, P) == Binary(op, a, a, b, P)

Copy(t, a, P) ==
    /\ Must("copy", P[t] = pool[a])
    /\ Must("frame", Frame(P, {t}))
    /\ Becomes(P)
(* the source is reusable but otherwise unspecified *)
Move(t, a, allocs, P) ==
    /\ t # a
    /\ Must("copy", P[t] = pool[a] /\ allocs = 0)
    /\ Must("frame", Frame(P, {t, a}))
    /\ Becomes(P)

(* std::swap: a move construction and two move assignments                  *)
Exchange(t, a, allocs, P) ==
    /\ Must("copy", P[t] = pool[a] /\ P[a] = pool[t] /\ allocs = 0)
    /\ Must("frame", Frame(P, {t, a}))
    /\ Becomes(P)

(* Two operators in one expression: what the first gave (mid) is a         *)
(* temporary, or the number the first assigning operator returned.         *)
(*   left:  t := (a o1 b) o2 c     right: t := a o1 (b o2 c)               *)
(*   chain: (t o1= a) o2= b                                                *)
Expression(form, o1, o2, t, a, b, c, mid, P) ==
    /\ CASE form = "left"  -> Legal(o1, pool[a], pool[b], mid) /\ Legal(o2, mid, pool[c], P[t])
         [] form = "right" -> Legal(o2, pool[b], pool[c], mid) /\ Legal(o1, pool[a], mid, P[t])
         [] form = "chain" -> /\ Legal(o1, pool[t], pool[a], mid)
                              /\ Legal(o2, mid, IF b = t THEN mid ELSE pool[b], P[t])
    /\ Must("frame", Frame(P, {t}))
    /\ Becomes(P)

Compare(a, b, res, P) ==
    /\ Must("cmp", res = CmpResults(pool[a], pool[b]))
    /\ Must("frame", Frame(P, {}))
    /\ Becomes(P)

Output(a, text, P) ==
    /\ Must("text", text = TextOf(pool[a]))
    /\ MustAny({"frame", "text"}, Frame(P, {}))
    /\ Becomes(P)

(* numbers among other things on one stream, which keeps its formatting:   *)
(* [a 255 b 1.5 1   -7]b, the -7 in a field of five                        *)
OutputAmong(a, b, text, P) ==
    /\ Must("text", text = <<91>> \o TextOf(pool[a]) \o <<32, 50, 53, 53, 32>> \o TextOf(pool[b])
                     \o <<32, 49, 46, 53, 32, 49, 32, 32, 32, 45, 55, 93>> \o TextOf(pool[b]))
    /\ MustAny({"frame", "text"}, Frame(P, {}))
    /\ Becomes(P)

Construct(t, kind, list, P) ==      \* list: digits, most significant first
    /\ Must("edit", P[t] = [d |-> kind, s |-> Limbs(Reverse(DropLeading(list)))])
    /\ Must("frame", Frame(P, {t}))
    /\ Becomes(P)

Edit(e, a, P) ==
    /\ Must("edit", EditEnabled(e, pool[a]))
    /\ Must("edit", P[a] = [d |-> pool[a].d, s |-> Limbs(Edited(e, pool[a]))])
    /\ Must("frame", Frame(P, {a}))
    /\ Becomes(P)

Clear(a, P) ==
    /\ Must("edit", P[a] = [d |-> "pos", s |-> <<>>])
    /\ Must("frame", Frame(P, {a}))
    /\ Becomes(P)

SetKind(a, kind, P) ==
    /\ Must("edit", P[a] = [d |-> kind,
                            s |-> IF kind \in {"pos", "neg"} THEN pool[a].s ELSE <<>>])
    /\ Must("frame", Frame(P, {a}))
    /\ Becomes(P)

Query(a, res, size, kind, P) ==
    /\ Must("edit", res = Queries(pool[a]) /\ size = Size(pool[a]) /\ kind = pool[a].d)
    /\ Must("frame", Frame(P, {}))
    /\ Becomes(P)

(* write = <<>> reads; otherwise the digit is stored.  `out` / `err`: how   *)
(* many lines the call put on standard output / error.                     *)
Index(a, pos, write, raised, got, out, err, P) ==
    LET inRange == pos < Size(pool[a])
    IN  /\ Must("index",
              IF inRange
              THEN /\ raised = "" /\ out = 0 /\ err = 0
                   /\ got = IF write = <<>> THEN DigitAt(pool[a], pos + 1) ELSE write
                   /\ P[a] = IF write = <<>> THEN pool[a]
                             ELSE [d |-> pool[a].d,
                                   s |-> SubSeq(pool[a].s, 1, pos * ty.k) \o write \o
                                         SubSeq(pool[a].s, (pos + 1) * ty.k + 1, Len(pool[a].s))]
              ELSE /\ raised = "bn_error" /\ out = 0 /\ err = 1
                   /\ P[a] = pool[a])
        /\ MustAny({"frame", "index"}, Frame(P, {a}))
        /\ Becomes(P)

(* a diagnostic check: severity in {"alert", "warning", "error", "debug"},  *)
(* "debug" being "off" unless the program is a debug build; the             *)
(* condition is evaluated `evals` times; `msg`: the message is on the right *)
(* stream                                                                   *)
Diagnose(sev, cond, evals, raised, out, err, msg, P) ==
    /\ Must("diag",
         /\ evals = 1 \/ (sev = "off" /\ evals = 0)
         /\ raised = IF ~cond /\ sev \in {"error", "debug"} THEN "bn_error" ELSE ""
         /\ out = IF ~cond /\ sev = "alert" THEN 1 ELSE 0
         /\ err = IF ~cond /\ sev \in {"warning", "error", "debug"} THEN 1 ELSE 0
         /\ msg = (~cond /\ sev # "off"))
    /\ Must("frame", Frame(P, {}))
    /\ Becomes(P)

(* Memory runs out somewhere inside the call (C11).                        *)
CompoundFails(a, raised, P) ==
    /\ Must("alloc", /\ raised = "bad_alloc"
                     /\ Inf(P[a]) /\ P[a].s = <<>>
                     /\ Frame(P, {a}))
    /\ Becomes(P)
OtherFails(raised, P) ==     \* copy, assignment, non-assigning operator
    /\ Must("alloc", raised = "bad_alloc" /\ Frame(P, {}))
    /\ Becomes(P)
(* Numbers stay usable: the results of the same few calls, made before any *)
(* failure and again after one (storing into the number that failed).      *)
StillUsable(a, then, now, P) ==
    /\ Must("alloc", then = now /\ Frame(P, {a}))
    /\ Becomes(P)
(* end of a history: everything destroyed, `live` allocations remain *)
Finish(live, P) ==
    /\ Must("alloc", live = 0)
    /\ Becomes(P)

(***************************************************************************)
(* The magnitude routines (C13) work on bare digit sequences; here they    *)
(* act on the digits of pool members.                                      *)
(***************************************************************************)
RawResult(fn, x, y, r, raised) ==
    CASE fn = "add" -> raised = "" /\ IsSignedSum(ty.B, 1, x, 1, y, 1, r)
      [] fn = "sub" -> raised = "" /\ IsSignedSum(ty.B, 1, x, -1, y, 1, r)
      [] fn = "div" -> raised = "" /\ IsQuotient(ty.B, x, y, r)
      [] fn \in {"mulfft", "mulnaive"} -> raised = "" /\ IsProduct(ty.B, x, y, r)
      (* debug builds refuse a difference that would be negative *)
      [] fn = "subdebug" -> IF Cmp(x, y) = -1 THEN raised = "underflow" /\ r = x
                            ELSE raised = "" /\ IsSignedSum(ty.B, 1, x, -1, y, 1, r)
Raw(fn, t, a, b, raised, P) ==    \* t := fn(a, b); in place when t = a
    /\ Must("raw", /\ RawResult(fn, pool[a].s, pool[b].s, P[t].s, raised)
                   /\ LegalDigits(P[t])
                   /\ P[t].d = pool[t].d
                   /\ Frame(P, {t}))
    /\ Becomes(P)
RawCompare(a, b, res, P) ==
    /\ Must("raw", /\ LET o == Cmp(pool[a].s, pool[b].s)
                      IN res = <<o = 0, o > 0, o >= 0, o < 0, o <= 0>>
                   /\ Frame(P, {}))
    /\ Becomes(P)

(***************************************************************************)
(* Derived facts a caller relies on; theorems of the above, stated as      *)
(* steps so that a history can claim them.                                 *)
(***************************************************************************)
ClaimSame(a, b, P) ==
    /\ Must("law", Same(pool[a], pool[b]))
    /\ Must("frame", Frame(P, {}))
    /\ Becomes(P)
(* t now holds what became of a after being taken apart and put together   *)
Rebuilt(t, a, P) ==
    /\ Must("law", Finite(pool[a]) /\ Finite(P[t]) /\ Same(pool[a], P[t]))
    /\ Must("frame", Frame(P, {t}))
    /\ Becomes(P)
(* the same value held by a number of another type (base C, limbs s) *)
ClaimEqualElsewhere(a, kind, C, s, P) ==
    /\ Must("law", /\ Finite(pool[a]) /\ kind \in {"pos", "neg"}
                   /\ Trim(Rebase(ty.B, C, pool[a].s)) = Trim(s)
                   /\ Sgn(pool[a]) = (IF IsZeroSeq(s) THEN 0 ELSE IF kind = "neg" THEN -1 ELSE 1))
    /\ Becomes(P)
=============================================================================
