--------------------------- MODULE MCParseHistory ---------------------------
(* All histories up to HistLen calls; the histories are written out.           *)
EXTENDS ParseHistory, IOUtils, Json, SequencesExt
CONSTANT HistLen
Ops == {[op |-> "parse", k |-> k, sec |-> s] : k \in 1..2, s \in SectionSet}
       \cup {[op |-> "mutate", k |-> 0, sec |-> Section("o", O2, None, None, None)]}
ASSUME "OUT" \in DOMAIN IOEnv =>
    ndJsonSerialize(IOEnv.OUT, SetToSeq({[hist |-> h] : h \in [1..HistLen -> Ops]}))
Bound == Len(store) < HistLen
LastIsWant == store # <<>> => TRUE
=============================================================================
