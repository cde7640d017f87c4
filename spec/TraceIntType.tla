---------------------------- MODULE TraceIntType ----------------------------
(* Trace validation against IntType.tla; see TraceBigNum.tla.              *)
EXTENDS IntType, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
vars == <<tid, l, w, mem>>
Tr == Traces[tid]
Ev == Tr.ev[l]
Recorded ==
    LET C == Ev.ch
    IN  IF Len(C) = 0 THEN mem
        ELSE [i \in DOMAIN mem |->
                LET j == SelectInSeq(C, LAMBDA c : c[1] = i)
                IN  IF j = 0 THEN mem[i] ELSE C[j][2]]
IsEvent(name) == l <= Len(Tr.ev) /\ Ev.op = name /\ l' = l + 1 /\ UNCHANGED tid

TraceInit ==
    /\ tid \in 1..Len(Traces) /\ l = 1
    /\ w = Traces[tid].k
    /\ mem = [i \in 1..Traces[tid].n |-> Zero]

TSet    == IsEvent("set") /\ Becomes(Recorded)
TPlain  == IsEvent("plain") /\ Plain(Ev.o, Ev.a, Ev.b, Ev.res, Recorded)
TTest   == IsEvent("test") /\ Test(Ev.o, Ev.a, Ev.b, Ev.res, Recorded)
TAssign == IsEvent("asg") /\ Assigning(Ev.o, Ev.a, Ev.b, Ev.self, Recorded)
TUnary  == IsEvent("un") /\ Unary(Ev.o, Ev.a, Ev.res, Recorded)
TStep   == IsEvent("step") /\ Step(Ev.o, Ev.post, Ev.a, Ev.res, Ev.self, Recorded)
TStore  == IsEvent("store") /\ Store(Ev.a, Ev.b, Ev.self, Recorded)
TClear  == IsEvent("clear") /\ Clear(Ev.a, Recorded)
TWrite  == IsEvent("write") /\ WriteTo(Ev.a, Ev.text, Ev.self, Recorded)
TRead   == IsEvent("read") /\ ReadFrom(Ev.a, Ev.text, Ev.ok, Ev.hex, Ev.self, Recorded)
TNRead  == IsEvent("nread") /\ ReadNothing(Ev.ok, Ev.self, Recorded)
TWriteH == IsEvent("writeh") /\ WriteHex(Ev.a, Ev.text, Ev.self, Recorded)
TWrites == IsEvent("writes") /\ WriteAmong(Ev.a, Ev.b, Ev.text, Ev.self, Recorded)
TReads  == IsEvent("reads") /\ ReadTwo(Ev.a, Ev.b, Ev.text, Ev.rest, Ev.self, Recorded)
TRow    == IsEvent("row") /\ Row(Ev.o, Ev.x, Ev.lo, Ev.res, Ev.kept, Ev.self, Recorded)
TURow   == IsEvent("urow") /\ UnaryRow(Ev.o, Ev.res, Ev.kept, Ev.self, Recorded)
TDone   == l = Len(Tr.ev) + 1 /\ UNCHANGED vars
TraceNext == \/ TSet \/ TPlain \/ TTest \/ TAssign \/ TUnary \/ TStep \/ TStore
             \/ TClear \/ TWrite \/ TRead \/ TWrites \/ TReads \/ TNRead \/ TWriteH \/ TRow \/ TURow \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_vars
(* what TLC prints of a state: numbers can be very long *)
Where == [tid |-> tid, l |-> l]
=============================================================================
