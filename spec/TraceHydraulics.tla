--------------------------- MODULE TraceHydraulics ---------------------------
(* op "cells": level, nx, nz, k, n, a (listed per facies), els (per element type: *)
(*   k, n trends), glob (the same), types (element type of each element number),  *)
(*   cells: [i, k, f, e (element type or -1), kv, nv, av].                        *)
(* op "keys": hyd, ani, keys.                                                     *)
(* op "field": units: [f, kind, n, kmean, kvar (1/1000, of ln(k/listed)), nmean,  *)
(*   nvar (of (n - listed), 1/1000 of its listed deviation), kd, nd (mean squared  *)
(*   differences along x, y, z), dims], sums per unit; same: pairs of equal fields.     *)
EXTENDS Hydraulics, TraceIO, FiniteSets
VARIABLE l
None == [z |-> <<>>, x |-> <<>>]
ElK(r, c) == IF c.e = -1 THEN None ELSE r.els[c.e + 1].k
ElN(r, c) == IF c.e = -1 THEN None ELSE r.els[c.e + 1].n
Agrees(listed, v, r, c, el, gl) ==
    LET w == Value(listed, r.level, c.i, c.k, r.nx, r.nz, el, gl)
    IN  Near(w, v, IF r.level = "internal" THEN Tolerance(w) ELSE 0)
Cs(r) == {r.cells[q] : q \in 1..Len(r.cells)}
JudgeCells(r) == LET cs == Cs(r) IN Failing({
    <<"facies-unknown", \A c \in cs : c.f \in 0..(Len(r.kl) - 1)>>,
    <<"wrong-conductivity", \A c \in cs : c.f \in 0..(Len(r.kl) - 1) => Agrees(r.kl[c.f + 1], c.kv, r, c, ElK(r, c), r.glob.k)>>,
    <<"wrong-porosity", \A c \in cs : c.f \in 0..(Len(r.kl) - 1) => Agrees(r.nl[c.f + 1], c.nv, r, c, ElN(r, c), r.glob.n)>>,
    <<"wrong-anisotropy-ratio", \A c \in cs : c.f \in 0..(Len(r.kl) - 1) => c.av = r.al[c.f + 1]>>,
    <<"no-cells", cs # {}>> })
Rng(s) == {s[q] : q \in 1..Len(s)}
JudgeKeys(r) == LET K == Rng(r.keys) IN Failing({
    <<"parameters-missing", Parameters(r.hyd, r.ani) \subseteq K>>,
    <<"hydraulic-parameters-although-switched-off", ~r.hyd => K \cap {"k_iso", "poros", "anirat", "ktensors"} = {}>>,
    <<"anisotropy-parameters-although-switched-off", r.hyd /\ ~r.ani => K \cap {"anirat", "ktensors"} = {}>> })
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
(* pooled over the units of facies f: mean of a field, weighted by the cells *)
Pool(us, g(_)) == Sum([q \in 1..Len(us) |-> g(us[q]) * us[q].n]) \div Max(1, Sum([q \in 1..Len(us) |-> us[q].n]))
Of(r, f) == SelectSeq(r.units, LAMBDA u : u.f = f)
Thick(r, f) == SelectSeq(r.units, LAMBDA u : u.f = f /\ \A b \in 1..3 : u.dims[b] >= 4)
Smooth(d, a) == a = 0 \/ \A b \in 1..3 \ {a} : 2 * d[a] < d[b]
JudgeField(r) ==
    LET us == Rng(r.units) fs == {u.f : u \in us}
    IN  Failing({
    <<"no-units", us # {}>>,
    <<"conductivity-field-mean-not-zero", \A u \in us : Abs(u.kmean) <= 2>>,
    <<"porosity-field-mean-not-zero", \A u \in us : Abs(u.nmean) <= 2>>,
    <<"conductivity-field-variance", \A f \in fs : r.cor = "white" =>
        Near(Pool(Of(r, f), LAMBDA u : u.kvar), r.sigk[f + 1], r.sigk[f + 1] \div 5)>>,
    <<"porosity-field-variance", \A f \in fs : r.cor = "white" =>
        Near(Pool(Of(r, f), LAMBDA u : u.nvar), r.sign[f + 1], r.sign[f + 1] \div 5)>>,
    <<"no-variation", \A u \in us : u.n > 20 => (r.sigk[u.f + 1] > 0 => u.kvar > 0) /\ (r.sign[u.f + 1] > 0 => u.nvar > 0)>>,
    <<"variation-without-variance", \A u \in us : (r.sigk[u.f + 1] = 0 => u.kvar = 0) /\ (r.sign[u.f + 1] = 0 => u.nvar = 0)>>,
    <<"conductivity-correlation-axis", \A f \in fs : r.sigk[f + 1] > 0 /\ Thick(r, f) # <<>> =>
        Smooth([b \in 1..3 |-> Pool(Thick(r, f), LAMBDA u : u.kd[b])], r.axk[f + 1])>>,
    <<"porosity-correlation-axis", \A f \in fs : r.sign[f + 1] > 0 /\ Thick(r, f) # <<>> =>
        Smooth([b \in 1..3 |-> Pool(Thick(r, f), LAMBDA u : u.nd[b])], r.axn[f + 1])>>,
    <<"conductivity-not-positive", \A u \in us : u.kpos>>,
    <<"same-field-twice", Len(r.same) = 0>> })
Judge(r) == IF r.out # "ok" THEN {"not-generated"}
            ELSE CASE r.op = "cells" -> JudgeCells(r) [] r.op = "keys" -> JudgeKeys(r) [] OTHER -> JudgeField(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
