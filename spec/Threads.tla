------------------------------- MODULE Threads -------------------------------
(***************************************************************************)
(* Several threads using the library (C17), one call per step.  Numbers    *)
(* 1..Len(shared) are read by all threads; every other number belongs to   *)
(* one thread.  The threads are independent: a call of thread t returns    *)
(* and changes what the same call does when t is the only thread, at       *)
(* whatever point of the interleaving it happens, and shared numbers never *)
(* change.  A data race has no action at all.                              *)
(* MCThreads.tla refines the calls to single memory accesses.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences

VARIABLES shared,     \* the numbers all threads may read
          pc          \* calls each thread has completed

Start(n, nums) == shared = nums /\ pc = [t \in 1..n |-> 0]

Changed(call) == {call.ch[i][1] : i \in 1..Len(call.ch)}
(* thread t makes its n-th call; `alone` is that call in t's solitary run  *)
Call(t, n, call, alone) ==
    /\ n = pc[t] + 1
    /\ call = alone
    /\ Changed(call) \cap (1..Len(shared)) = {}
    /\ pc' = [pc EXCEPT ![t] = n]
    /\ UNCHANGED shared

(* all threads have finished *)
Stop(done, nums) ==
    /\ pc = done
    /\ nums = shared
    /\ UNCHANGED <<shared, pc>>
=============================================================================
