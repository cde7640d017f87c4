------------------------------ MODULE Schedules ------------------------------
(* All interleavings of the calls of Threads.tla for the driver to follow:  *)
(* TLC walks the state graph and writes each complete schedule to the file  *)
(* named by SCHEDULES.                                                      *)
EXTENDS Threads, TLC, IOUtils, Json, SequencesExt
CONSTANTS Sizes        \* set of sequences: calls per thread
SizesDef == {<<3, 3>>, <<2, 2, 2>>}
VARIABLES goal, order
Init == /\ goal \in Sizes /\ order = <<>>
        /\ shared = <<>> /\ pc = [t \in 1..Len(goal) |-> 0]
Write(o) == Serialize(ToString(o) \o "\n", IOEnv.SCHEDULES,
    [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
NoCall == [ch |-> <<>>]
Next == \E t \in 1..Len(goal) :
            /\ pc[t] < goal[t]
            /\ Call(t, pc[t] + 1, NoCall, NoCall)
            /\ order' = Append(order, t)
            /\ UNCHANGED goal
Spec == Init /\ [][Next]_<<goal, order, shared, pc>>
Emit == pc = goal => Write(order)
=============================================================================
