---------------------------- MODULE TraceThreads ----------------------------
(* Trace validation against Threads.tla; see TraceBigNum.tla.              *)
EXTENDS Threads, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
vars == <<tid, l, shared, pc>>
Tr == Traces[tid]
Ev == Tr.ev[l]
IsEvent(name) == l <= Len(Tr.ev) /\ Ev.op = name /\ l' = l + 1 /\ UNCHANGED tid

TraceInit == /\ tid \in 1..Len(Traces) /\ l = 1
             /\ shared = <<>> /\ pc = <<>>
TStart == IsEvent("start") /\ l = 1
          /\ shared' = Ev.shared /\ pc' = [t \in 1..Ev.threads |-> 0]
TCall  == IsEvent("step") /\ Call(Ev.th, Ev.n, Ev.got, Ev.alone)
TStop  == IsEvent("stop") /\ Stop(Ev.done, Ev.shared)
TDone  == l = Len(Tr.ev) + 1 /\ UNCHANGED vars
TraceNext == TStart \/ TCall \/ TStop \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_vars
(* what TLC prints of a state: numbers can be very long *)
Where == [tid |-> tid, l |-> l]
=============================================================================
