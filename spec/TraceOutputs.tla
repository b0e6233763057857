---------------------------- MODULE TraceOutputs -----------------------------
(* Record: formats, name, out, entries (of the realization directory), same (the  *)
(* model's data were not changed by writing), n, d, o, ref (values of the model's  *)
(* arrays), ani (with anisotropy), files: per format [fmt, inside, arrays (name -> [shape, v]), ...].     *)
EXTENDS Outputs, TraceIO
VARIABLE l
Abs(a) == IF a < 0 THEN -a ELSE a
(* precision of the formats: exact, seven digits, four digits / three decimals *)
Tol(f, a, v) == IF f \in Arrays \cup {"vtr"} THEN 0
                ELSE IF f \in Flow THEN 1 + Abs(v) \div 100000
                ELSE IF a = "poros" THEN 6 ELSE 1 + Abs(v) \div 1000
SameArray(r, f, a, got) ==
    /\ got.shape = Shape(f, r.n)
    /\ Len(got.v) = Len(r.ref[a])
    /\ \A c \in Cells(r.n) : LET v == r.ref[a][Flat(r.n, c)] IN Abs(got.v[Pos(f, r.n, c)] - v) <= Tol(f, a, v)
Tensor == {"K11", "K12", "K13", "K21", "K22", "K23", "K31", "K32", "K33"}
(* without anisotropy there are no ratios and tensors; the flow models then get  *)
(* the same conductivity in all directions, which is what ref holds              *)
Own(r) == DOMAIN r.ref \ ({"k33"} \cup IF r.ani THEN {} ELSE Tensor \cup {"anirat"})
Names(r, f) == CASE f \in Arrays -> Own(r)
                 [] f = "vtr" -> Own(r) \ Tensor
                 [] f = "hgs" -> {"poros", "K11", "K22", "K33", "K12", "K13", "K23"}
                 [] f = "mf" -> {"k_iso", "anirat"}
                 [] f = "mf6" -> {"k_iso", "k33"} \cup IF r.ani THEN {"azim", "dip"} ELSE {}
All(s, v, k) == Len(s) = k /\ \A i \in 1..k : s[i] = v
Edges(s, n, d, o) == Len(s) = n + 1 /\ \A i \in 1..(n + 1) : Abs(s[i] - (o + (i - 1) * d)) <= 1
Judge1(r, g) == LET f == g.fmt IN Failing({
    <<"file-missing-in-directory", Inside(f, r.name) \subseteq Rng(g.inside)>>,
    <<"array-missing", Names(r, f) \subseteq DOMAIN g.arrays>>,
    <<"unexpected-array", f \in Arrays \cup {"vtr"} => DOMAIN g.arrays \subseteq Names(r, f)>>,
    <<"cell-values-differ", \A a \in Names(r, f) \cap DOMAIN g.arrays : SameArray(r, f, a, g.arrays[a])>>,
    <<"tensor-shape", f \in Arrays /\ "K11" \in Own(r) => g.tshape = r.n \o <<3, 3>> >>,
    <<"wrong-identifiers", f = "hgs" => \A s \in Rng(g.uid) : Len(s) = r.n[1] * r.n[2] * r.n[3] /\ \A i \in 1..Len(s) : s[i] = i>>,
    <<"wrong-coordinates", f = "vtr" => Edges(g.x, r.n[1], r.d[1], r.o[1]) /\ Edges(g.y, r.n[2], r.d[2], r.o[2]) /\ Edges(g.z, r.n[3], r.d[3], r.o[3])>>,
    <<"wrong-spacing", f \in Flow => All(g.delr, Delr(f, r.d), Cols(f, r.n)) /\ All(g.delc, Delc(f, r.d), Rows(f, r.n))>>,
    <<"wrong-elevations", f \in Flow => /\ \A i \in 1..Len(g.top) : Abs(g.top[i] - Top(r.n, r.d, r.o)) <= 1
                                       /\ Len(g.bot) = r.n[3]
                                       /\ \A k \in 1..Len(g.bot) : Rng(g.bot[k]) \subseteq {Bottom(r.n, r.d, r.o, k - 1) + e : e \in {-1, 0, 1}}>>,
    <<"wrong-fixed-heads", f \in Flow /\ Cols(f, r.n) > 1 /\ r.heads \in {"hin", "gradh"} => Rng(g.fixed) = Fixed(f, r.n, r.hin, r.hout)>>,
    <<"wrong-fixed-heads", f = "mf6" /\ Cols(f, r.n) > 1 /\ r.heads = "q" =>
        {<<c[1], c[2], c[3]>> : c \in Rng(g.fixed)} = {<<k, q, Cols(f, r.n) - 1>> : k \in 0..(r.n[3] - 1), q \in 0..(Rows(f, r.n) - 1)}>>,
    (* initial heads fall evenly from the first to the last column *)
    <<"wrong-initial-heads", f = "mf6" /\ r.n[1] > 1 /\ r.heads \in {"hin", "gradh"} => /\ Len(g.start) = r.n[1] * r.n[2] * r.n[3]
        /\ \A c \in Cells(r.n) : Abs((g.start[Pos(f, r.n, c)] - r.hin) * (r.n[1] - 1) - (r.hout - r.hin) * c[1]) <= 2 * r.n[1] >>,
    <<"wrong-inflow", f = "mf6" /\ r.heads = "q" => Rng(g.wells) = {<<k, q, 0, r.q>> : k \in 0..(r.n[3] - 1), q \in 0..(Rows(f, r.n) - 1)}>>,
    <<"boundary-cells-in-the-interior", f = "mf" => g.inactive = 0>> })
JudgeRead(r) ==
    IF r.out # "ok" THEN {"output-not-written"}
    ELSE Failing({
        <<"wrong-files", Rng(r.entries) = Entries(r.formats, r.name)>>,
        <<"not-all-formats-readable", {g.fmt : g \in Rng(r.files)} = Rng(r.formats)>>,
        <<"model-changed-by-writing", r.same>> })
      \cup UNION {Judge1(r, g) : g \in Rng(r.files)}
Judge(r) == IF r.op = "unknown" THEN Failing({<<"unknown-format-accepted", r.out = "ValueError">>}) ELSE JudgeRead(r)
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
