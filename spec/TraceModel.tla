------------------------------ MODULE TraceModel ------------------------------
(* Record: file (see Model.tla), flat (all contacts are flat), n, hyd, ani, het,     *)
(* trends (some trend is configured), keys (arrays all files must have), kl, nl, al  *)
(* (listed per facies), vary (all facies have a variance), numsim, out, reals: per realization [dir, keys, shapes,      *)
(* kinds (distinct cells), cols (columns of positions in kinds, from the top), kn    *)
(* (distinct <<facies, k, n>>), fat (distinct <<facies, ratio, trace of the tensor   *)
(* over k>>), pos (conductivities finite and positive, porosities finite), sum].     *)
EXTENDS Model, TraceIO
VARIABLE l
Abs(a) == IF a < 0 THEN -a ELSE a
Keys(r) == {"facies", "azim", "dip", "strata", "ae", "ha", "hat"} \cup (IF r.hyd THEN {"k_iso", "poros"} ELSE {})
           \cup (IF r.hyd /\ r.ani THEN {"anirat", "ktensors"} ELSE {})
Exact(r) == r.hyd /\ (r.het = "off" \/ (r.het = "facies" /\ ~r.trends))
(* the tensor's trace is k (2 + 1/ratio) *)
Trace3(av, tr) == Abs((tr - 20000) * av - 100000000) <= 3 * av
Real(r, q, k) ==
    LET S == Rng(q.kinds)
        known == \A v \in S : v[1] + 1 \in 1..Len(r.file.strata) /\ v[4] + 1 \in 1..Len(r.file.types)
    IN  IF ~known THEN {"unknown-stratum-or-element"} ELSE Failing({
    <<"wrong-directory", q.dir = k>>,
    <<"wrong-arrays", Rng(q.keys) = Keys(r)>>,
    <<"wrong-shape", \A s \in Rng(q.shapes) : s = r.n>>,
    <<"element-not-of-its-stratum", \A v \in S : Placed(r.file, v)>>,
    <<"object-cell-not-of-its-type", \A v \in S : Placed(r.file, v) /\ v[3] # -1 => Filled(r.file, v)>>,
    <<"background-cell-not-of-its-element", \A v \in S : Placed(r.file, v) /\ v[3] = -1 => Filled(r.file, v)>>,
    <<"number-used-twice", Nested(S)>>,
    <<"numbers-do-not-ascend", Numbered(S)>>,
    <<"object-not-uniform", Uniform(r.file, S)>>,
    <<"units-not-in-order-from-the-top", r.flat => \A c \in Rng(q.cols) : Descends([i \in 1..Len(c) |-> q.kinds[c[i]]])>>,
    <<"conductivity-or-porosity-not-listed", Exact(r) => \A h \in Rng(q.kn) : h[2] = r.kl[h[1] + 1] /\ h[3] = r.nl[h[1] + 1]>>,
    <<"ratio-not-listed", r.hyd /\ r.ani => \A h \in Rng(q.fat) : h[2] = r.al[h[1] + 1]>>,
    <<"tensor-does-not-fit-conductivity-and-ratio", r.hyd /\ r.ani => \A h \in Rng(q.fat) : Trace3(h[2], h[3])>>,
    <<"impossible-values", r.hyd => q.pos>> })
Judge(r) == IF r.out # "ok" THEN {"run-of-an-accepted-file-failed"}
            ELSE Failing({<<"wrong-number-of-realizations", Len(r.reals) = r.numsim>>,
                          <<"realizations-are-equal", r.hyd /\ r.het = "internal" /\ r.vary /\ r.n[1] * r.n[2] > 5 /\ r.n[3] > 5 => Cardinality({q.sum : q \in Rng(r.reals)}) = Len(r.reals)>>})
                 \cup UNION {Real(r, r.reals[k], k) : k \in 1..Len(r.reals)}
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
