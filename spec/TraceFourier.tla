---------------------------- MODULE TraceFourier ----------------------------
(* Trace validation against Fourier.tla; see TraceBigNum.tla.              *)
EXTENDS Fourier, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
vars == <<tid, l, tab, len>>
Tr == Traces[tid]
Ev == Tr.ev[l]
IsEvent(name) == l <= Len(Tr.ev) /\ Ev.op = name /\ l' = l + 1 /\ UNCHANGED tid

TraceInit ==
    /\ tid \in 1..Len(Traces) /\ l = 1
    /\ tab = [is |-> "signal", s |-> <<>>, a |-> <<>>, b |-> <<>>] /\ len = 0

TPack  == IsEvent("pack") /\ Pack(Ev.a, Ev.b, Ev.obs)
TPut   == IsEvent("put") /\ Put(Ev.s)
TFwd   == IsEvent("fft") /\ Transform(Ev.n, Ev.q, Ev.all)
TBack  == IsEvent("back") /\ InverseBack(Ev.obs)
TInv   == IsEvent("inv") /\ InverseOfSignal(Ev.n, Ev.q, Ev.all)
TFBack == IsEvent("fback") /\ TransformBack(Ev.obs)
TConv  == IsEvent("conv") /\ Convolve(Ev.n)
TCoef  == IsEvent("coef") /\ ProductCoefficients(Ev.coef)
TRows  == IsEvent("rows") /\ Helpers(Ev.rows)
TDone  == l = Len(Tr.ev) + 1 /\ UNCHANGED vars
TraceNext == TPack \/ TPut \/ TFwd \/ TBack \/ TInv \/ TFBack \/ TConv \/ TCoef \/ TRows \/ TDone
TraceSpec == TraceInit /\ [][TraceNext]_vars
(* what TLC prints of a state: numbers can be very long *)
Where == [tid |-> tid, l |-> l]
=============================================================================
