----------------------------- MODULE TraceBigNum -----------------------------
(***************************************************************************)
(* Trace validation: is every recorded execution of the real code a        *)
(* behaviour of BigNum.tla?  The file named by the environment variable    *)
(* TRACE has one execution per line; each is an initial state, so TLC's    *)
(* workers check executions in parallel.  Every event carries its          *)
(* arguments and every number the call changed, hence each step is         *)
(* deterministic.  An event that no action of the specification explains   *)
(* is a deadlock; the state then shows which (trace, event) it is.         *)
(* Crashes and hangs of the real code are events without any action.       *)
(***************************************************************************)
EXTENDS BigNum, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid,    \* which execution
          l       \* its next event
vars == <<tid, l, ty, pool>>

Tr == Traces[tid]
Ev == Tr.ev[l]

(* the pool after the event, as recorded *)
Recorded ==
    LET C == Ev.ch
    IN  IF Len(C) = 0 THEN pool
        ELSE [i \in DOMAIN pool |->
                LET j == SelectInSeq(C, LAMBDA c : c[1] = i)
                IN  IF j = 0 THEN pool[i] ELSE [d |-> C[j][2], s |-> C[j][3]]]

IsEvent(name) == l <= Len(Tr.ev) /\ Ev.op = name /\ l' = l + 1 /\ UNCHANGED tid
(* the call returned normally *)
Normal == Ev.x = ""

TraceInit ==
    /\ tid \in 1..Len(Traces)
    /\ l = 1
    /\ ty = [B |-> Traces[tid].B, k |-> Traces[tid].k]
    /\ pool = [i \in 1..Traces[tid].n |-> [d |-> "pos", s |-> <<>>]]

(* the driver puts numbers in place by assigning the public members *)
TSet     == IsEvent("set") /\ Becomes(Recorded)
TBinary  == IsEvent("bin") /\ Normal /\ Binary(Ev.o, Ev.r, Ev.a, Ev.b, Recorded)
TCompound== IsEvent("cmpd") /\ Normal /\ Compound(Ev.o, Ev.a, Ev.b, Recorded)
TCopy    == IsEvent("copy") /\ Normal /\ Copy(Ev.r, Ev.a, Recorded)
TMove    == IsEvent("move") /\ Normal /\ Move(Ev.r, Ev.a, Ev.allocs, Recorded)
TSwap    == IsEvent("swap") /\ Normal /\ Exchange(Ev.r, Ev.a, Ev.allocs, Recorded)
TExpr    == IsEvent("expr") /\ Normal
            /\ Expression(Ev.f, Ev.o1, Ev.o2, Ev.r, Ev.a, Ev.b, Ev.c, [d |-> Ev.mid[1], s |-> Ev.mid[2]], Recorded)
TCompare == IsEvent("cmp") /\ Normal /\ Compare(Ev.a, Ev.b, Ev.res, Recorded)
TOutput  == IsEvent("print") /\ Normal /\ Output(Ev.a, Ev.text, Recorded)
TOutputs == IsEvent("prints") /\ Normal /\ OutputAmong(Ev.a, Ev.b, Ev.text, Recorded)
TCtor    == IsEvent("ctor") /\ Normal /\ Construct(Ev.r, Ev.k, Ev.list, Recorded)
EditOps  == {"resize", "pushf", "popf", "pushb", "popb", "pushat", "popat"}
TEdit    == /\ l <= Len(Tr.ev) /\ Ev.op \in EditOps /\ l' = l + 1 /\ UNCHANGED tid
            /\ Normal
            /\ Edit([op |-> Ev.op, pos |-> Ev.pos, dig |-> Ev.dig], Ev.a, Recorded)
TClear   == IsEvent("clear") /\ Normal /\ Clear(Ev.a, Recorded)
TSetKind == IsEvent("setk") /\ Normal /\ SetKind(Ev.a, Ev.k, Recorded)
TQuery   == IsEvent("query") /\ Normal /\ Query(Ev.a, Ev.res, Ev.size, Ev.k, Recorded)
TIndex   == IsEvent("idx") /\ Index(Ev.a, Ev.pos, Ev.w, Ev.x, Ev.got, Ev.out, Ev.err, Recorded)
TDiag    == IsEvent("diag") /\ Diagnose(Ev.sev, Ev.cond, Ev.evals, Ev.x, Ev.out, Ev.err, Ev.msg, Recorded)
TFail    == IsEvent("fail") /\ IF Ev.kind = "compound"
                               THEN CompoundFails(Ev.a, Ev.x, Recorded)
                               ELSE OtherFails(Ev.x, Recorded)
TUsable  == IsEvent("usable") /\ StillUsable(Ev.a, Ev.then, Ev.now, Recorded)
TEnd     == IsEvent("end") /\ Finish(Ev.live, Recorded)
TSame    == IsEvent("same") /\ ClaimSame(Ev.a, Ev.b, Recorded)
TClaim   == IsEvent("claim") /\ Normal /\ Rebuilt(Ev.r, Ev.a, Recorded)
TElse    == IsEvent("xeq") /\ Normal /\ ClaimEqualElsewhere(Ev.a, Ev.k, Ev.C, Ev.s, Recorded)
TRaw     == IsEvent("raw") /\ Raw(Ev.fn, Ev.r, Ev.a, Ev.b, Ev.x, Recorded)
TRawCmp  == IsEvent("rawcmp") /\ Normal /\ RawCompare(Ev.a, Ev.b, Ev.res, Recorded)
(* all events explained *)
TDone    == l = Len(Tr.ev) + 1 /\ UNCHANGED vars

TraceNext ==
    \/ TSet \/ TBinary \/ TCompound \/ TCopy \/ TMove \/ TSwap \/ TExpr \/ TCompare \/ TOutput
    \/ TOutputs \/ TCtor \/ TEdit \/ TClear \/ TSetKind \/ TQuery \/ TIndex \/ TDiag
    \/ TFail \/ TUsable \/ TEnd \/ TSame \/ TClaim \/ TElse \/ TRaw \/ TRawCmp
    \/ TDone

TraceSpec == TraceInit /\ [][TraceNext]_vars
(* what TLC prints of a state: numbers can be very long *)
Where == [tid |-> tid, l |-> l]
=============================================================================
