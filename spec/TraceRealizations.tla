------------------------- MODULE TraceRealizations --------------------------
(* Records: "gen"  [file, st, content, next]   one realization, of a fresh or a reused model    *)
(*          "same" [content, again]            after repeated assignment / repeated output      *)
(*          "hyd"  [file, st, content, next]   hydraulics generated again on the same geometry  *)
(*          "run"  [file, st, num, dirs]       dirs: sequence of [dir, files, content]          *)
EXTENDS Realizations, TraceIO
VARIABLES l, memo
vars == <<l, memo>>
Rng(q) == {q[i] : i \in 1..Len(q)}
Key(r) == <<r.op, r.file, r.st>>
Val(r) == <<r.content, r.next>>
(* the random state before realization i of a run, "?" if it was not learnt *)
RECURSIVE StateAt(_, _, _)
StateAt(f, st, i) == IF i = 1 THEN st
                     ELSE LET b == StateAt(f, st, i - 1)
                          IN  IF <<"gen", f, b>> \in DOMAIN memo THEN memo[<<"gen", f, b>>][2] ELSE "?"
DirsOf(r) == {x.dir : x \in Rng(r.dirs)}
ContentOf(r, d) == (CHOOSE x \in Rng(r.dirs) : x.dir = d).content
FilesOf(r, d) == Rng((CHOOSE x \in Rng(r.dirs) : x.dir = d).files)
Judge(r) ==
    CASE r.op = "bad" -> {"generation-failed"}
      [] r.op \in {"gen", "hyd"} -> Failing({
           <<"not-a-function-of-file-and-random-state", Key(r) \in DOMAIN memo => memo[Key(r)] = Val(r)>>})
      [] r.op = "same" -> Failing({<<"changed-by-repetition", r.content = r.again>>})
      [] r.op = "run" -> Failing({
           <<"wrong-realization-directories", DirsOf(r) = Dirs(r.num)>>,
           <<"realization-incomplete-or-mixed", \A d \in DirsOf(r) \cap Dirs(r.num) : FilesOf(r, d) = Rng(r.want)>>,
           <<"realization-differs-from-fresh-model",
               \A i \in 1..r.num : DirOf(i, r.num) \in DirsOf(r) =>
                   LET b == StateAt(r.file, r.st, i)
                   IN  <<"gen", r.file, b>> \in DOMAIN memo =>
                         ContentOf(r, DirOf(i, r.num)) = memo[<<"gen", r.file, b>>][1]>> })
Init == l = 1 /\ memo = <<>>
Next == /\ l <= Len(Trace)
        /\ Report(l, Judge(Trace[l]))
        /\ memo' = IF Trace[l].op \in {"gen", "hyd"} /\ Key(Trace[l]) \notin DOMAIN memo
                   THEN memo @@ (Key(Trace[l]) :> Val(Trace[l])) ELSE memo
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
