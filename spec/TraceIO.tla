------------------------------- MODULE TraceIO ------------------------------
(* Recorded outcomes of the code under test, one JSON record per line.        *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
Report(l, bad) == IF bad = {} THEN TRUE ELSE PrintT(<<"REJECT", l, bad>>)
(* a set of clause names from <<name, holds>> pairs *)
Failing(cs) == {c[1] : c \in {d \in cs : ~d[2]}}
=============================================================================
