------------------------------ MODULE MCThreads ------------------------------
(***************************************************************************)
(* The calls of Threads.tla refined to single memory accesses: every       *)
(* thread repeatedly adds a shared number to its own, digit by digit, in   *)
(* all interleavings of the accesses.  With Hidden = "none" (the library   *)
(* as it should be) there is no race and every call yields its sequential  *)
(* result, i.e. the model refines Threads.tla.  The other values of Hidden *)
(* give the library state a caller does not see; TLC must then find a race *)
(* and a wrong result:                                                     *)
(*   "carry"  the carry is a static variable                               *)
(*   "trim"   an operand is normalised in place and restored               *)
(*   "scratch" the result is built in a static buffer                      *)
(***************************************************************************)
EXTENDS BigNat, FiniteSets, TLC
CONSTANTS Thr, Calls, L, Hidden
Base == 2
VARIABLES shared,   \* digits of the one shared number, plus the digit "len"
          own,      \* thread -> digits of its number
          static,   \* the hidden variable, if any
          at,       \* thread -> next access
          i, d, e, c, \* thread -> its local variables
          done      \* thread -> calls completed
vars == <<shared, own, static, at, i, d, e, c, done>>

Init ==
    /\ shared \in [1..L -> 0..(Base - 1)]
    /\ own \in [Thr -> [1..L -> 0..(Base - 1)]]
    /\ static = [x \in 0..L |-> 0]
    /\ at = [t \in Thr |-> "begin"] /\ i = [t \in Thr |-> 1]
    /\ d = [t \in Thr |-> 0] /\ e = [t \in Thr |-> 0] /\ c = [t \in Thr |-> 0]
    /\ done = [t \in Thr |-> 0]

(* <<place, "r" | "w">> of a thread's next access *)
Access(t) ==
    CASE at[t] = "begin"  -> IF Hidden = "carry" THEN <<<<"static", 0>>, "w">> ELSE <<<<"none", t>>, "r">>
      [] at[t] = "trim"   -> <<<<"shared", L>>, "w">>
      [] at[t] = "src"    -> <<<<"shared", i[t]>>, "r">>
      [] at[t] = "dst"    -> <<<<"own", t>>, "r">>
      [] at[t] = "carry"  -> IF Hidden = "carry" THEN <<<<"static", 0>>, "r">> ELSE <<<<"none", t>>, "r">>
      [] at[t] = "store"  -> IF Hidden = "scratch" THEN <<<<"static", i[t]>>, "w">> ELSE <<<<"own", t>>, "w">>
      [] at[t] = "keep"   -> IF Hidden = "carry" THEN <<<<"static", 0>>, "w">> ELSE <<<<"none", t>>, "r">>
      [] at[t] = "fetch"  -> <<<<"static", i[t]>>, "r">>
      [] at[t] = "restore"-> <<<<"shared", L>>, "w">>
      [] OTHER -> <<<<"none", t>>, "r">>

Go(t, label) == at' = [at EXCEPT ![t] = label]
Mod(n) == n % Base
CarryNow(t) == IF Hidden = "carry" THEN static[0] ELSE c[t]

Begin(t) == /\ at[t] = "begin" /\ done[t] < Calls
            /\ i' = [i EXCEPT ![t] = 1] /\ c' = [c EXCEPT ![t] = 0]
            /\ static' = IF Hidden = "carry" THEN [static EXCEPT ![0] = 0] ELSE static
            /\ Go(t, IF Hidden = "trim" THEN "trim" ELSE "src")
            /\ UNCHANGED <<shared, own, d, e, done>>
Trimming(t) == /\ at[t] = "trim" /\ d' = [d EXCEPT ![t] = shared[L]]
               /\ shared' = [shared EXCEPT ![L] = 0]
               /\ Go(t, "restore") /\ UNCHANGED <<own, static, i, e, c, done>>
Restore(t) == /\ at[t] = "restore" /\ shared' = [shared EXCEPT ![L] = d[t]]
              /\ Go(t, "src") /\ UNCHANGED <<own, static, i, d, e, c, done>>
Src(t) == /\ at[t] = "src" /\ d' = [d EXCEPT ![t] = shared[i[t]]]
          /\ Go(t, "dst") /\ UNCHANGED <<shared, own, static, i, e, c, done>>
Dst(t) == /\ at[t] = "dst" /\ e' = [e EXCEPT ![t] = own[t][i[t]]]
          /\ Go(t, "carry") /\ UNCHANGED <<shared, own, static, i, d, c, done>>
Carry(t) == /\ at[t] = "carry" /\ e' = [e EXCEPT ![t] = @ + d[t] + CarryNow(t)]
            /\ Go(t, "store") /\ UNCHANGED <<shared, own, static, i, d, c, done>>
Store(t) == /\ at[t] = "store"
            /\ IF Hidden = "scratch" THEN static' = [static EXCEPT ![i[t]] = Mod(e[t])] /\ UNCHANGED own
               ELSE own' = [own EXCEPT ![t][i[t]] = Mod(e[t])] /\ UNCHANGED static
            /\ Go(t, "keep") /\ UNCHANGED <<shared, i, d, e, c, done>>
Keep(t) == /\ at[t] = "keep"
           /\ IF Hidden = "carry" THEN static' = [static EXCEPT ![0] = e[t] \div Base] /\ UNCHANGED c
              ELSE c' = [c EXCEPT ![t] = e[t] \div Base] /\ UNCHANGED static
           /\ IF i[t] < L THEN i' = [i EXCEPT ![t] = @ + 1] /\ Go(t, "src")
              ELSE i' = [i EXCEPT ![t] = 1] /\ Go(t, IF Hidden = "scratch" THEN "fetch" ELSE "end")
           /\ UNCHANGED <<shared, own, d, e, done>>
Fetch(t) == /\ at[t] = "fetch" /\ own' = [own EXCEPT ![t][i[t]] = static[i[t]]]
            /\ IF i[t] < L THEN i' = [i EXCEPT ![t] = @ + 1] /\ UNCHANGED at
               ELSE Go(t, "end") /\ UNCHANGED i
            /\ UNCHANGED <<shared, static, d, e, c, done>>
End(t) == /\ at[t] = "end" /\ done' = [done EXCEPT ![t] = @ + 1]
          /\ Go(t, "begin") /\ UNCHANGED <<shared, own, static, i, d, e, c>>
Next == \E t \in Thr : \/ Begin(t) \/ Trimming(t) \/ Restore(t) \/ Src(t) \/ Dst(t) \/ Carry(t)
                       \/ Store(t) \/ Keep(t) \/ Fetch(t) \/ End(t)

(* ghost: what is known of the start is kept by running it backwards:      *)
(* own after k calls minus k times the shared number is the initial own    *)
VARIABLES own0, shared0
MInit == Init /\ own0 = own /\ shared0 = shared
MNext == Next /\ UNCHANGED <<own0, shared0>>
MSpec == MInit /\ [][MNext]_<<vars, own0, shared0>>

AloneValue(t) == (ToNat(Base, own0[t]) + done[t] * ToNat(Base, shared0)) % (Base ^ L)
Running(t) == done[t] < Calls
NoRace == \A t, u \in Thr :
    (t # u /\ Running(t) /\ Running(u)) =>
        LET x == Access(t)  y == Access(u)
        IN  x[1] = y[1] => (x[2] = "r" /\ y[2] = "r")
ResultsAlone == \A t \in Thr : at[t] = "begin" => ToNat(Base, own[t]) = AloneValue(t)
SharedKept == shared = shared0

(* the interleaving semantics of Threads.tla, one call per step *)
T == INSTANCE Threads WITH shared <- shared0, pc <- done
TNext == \E t \in Thr : T!Call(t, done[t] + 1, [ch |-> <<>>, v |-> ToNat(Base, own[t])],
                                [ch |-> <<>>, v |-> (ToNat(Base, own0[t]) + (done[t] + 1) * ToNat(Base, shared0)) % (Base ^ L)])
Refines == [][TNext]_<<shared0, done>>
=============================================================================
