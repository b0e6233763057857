---------------------------- MODULE TraceMeander ----------------------------
(* louder: where the same channels turn when there is much more noise.                                            *)
(* Records [row, eps, ds, channels, louder]; a channel is [th, tangent, step, uneven]: directions at the steps of the     *)
(* model (recovered from its centreline), largest deviation of the velocities from the curve's tangent, spread of *)
(* the distances between its points (1/1000000), and whether the steps of the model were uneven.                  *)
EXTENDS Meander, TraceIO
VARIABLES l
Rng(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Sum(s) == SumTo(s, Len(s))
Total(f(_), cs) == Sum([q \in 1..Len(cs) |-> f(cs[q])])
Clamp(v, m) == IF v > m THEN m ELSE IF v < -m THEN -m ELSE v
(* products of noise (1/10) with what came n steps before *)
Lag(n, e) == IF Len(e) <= n THEN 0 ELSE Sum([i \in 1..Len(e) - n |-> Div(Clamp(e[i], 1000) * Clamp(e[i + n], 1000), 100)])
Tied(n, e, t) == Sum([i \in 1..Len(e) - n |-> Div(Clamp(e[i + n], 1000) * Clamp(t[i + 1], 15000), 1000)])
(* directions at which a series turns *)
Turns(t) == LET at == {i \in 2..Len(t) - 1 : (t[i] - t[i - 1]) * (t[i + 1] - t[i]) < 0}
            IN  {<<t[i], Max(Abs(t[i] - t[i - 1]), Abs(t[i + 1] - t[i]))>> : i \in at}
(* every turn is also one of the louder channel, which is as many times larger as its noise *)
SameTurns(t, loud) ==
    LET b == Rng(loud) IN loud # <<>> => \A v \in Turns(t) : \E w \in b : Near(v[1], w, 8 + v[2] \div 25)
Within(v, limit) == Abs(v) <= limit + 5
Judge(r) ==
    IF r.out # "ok" THEN {"not-generated"}
    ELSE LET c == Table[r.row]
             ch == r.channels
             es == TLCEval([q \in 1..Len(ch) |-> Noise(c, ch[q].th)])
             N == Sum([q \in 1..Len(es) |-> Len(es[q])])
             E(f(_)) == Sum([q \in 1..Len(es) |-> f(es[q])])
             mean == E(Sum)
             var == E(LAMBDA e : Lag(0, e))
             half == E(LAMBDA e : Cardinality({i \in 1..Len(e) : Abs(e[i]) < 67}))
             big == E(LAMBDA e : Cardinality({i \in 1..Len(e) : Abs(e[i]) > 600}))
             th2 == Sum([q \in 1..Len(ch) |-> Sum([i \in 1..Len(ch[q].th) |-> Div(Clamp(ch[q].th[i], 15000) * Clamp(ch[q].th[i], 15000), 10000)])])
             rt == Sqrt(N)
             tied(n) == Sum([q \in 1..Len(ch) |-> Tied(n, es[q], ch[q].th)])
             pair == IF Len(es) < 2 THEN 0 ELSE
                     Sum([q \in 1..Len(es) - 1 |-> Sum([i \in 1..Min(Len(es[q]), Len(es[q + 1])) |-> Div(Clamp(es[q][i], 1000) * Clamp(es[q + 1][i], 1000), 100)])])
         IN  Failing({
               <<"velocity-not-along-the-curve", \A o \in Rng(ch) : o.tangent <= 20>>,
               <<"points-not-evenly-spaced", \A o \in Rng(ch) : o.step <= 20>>,
               <<"steps-not-recognizable", \A o \in Rng(ch) : ~o.uneven>> })
             \cup (IF N < 200 \/ \E o \in Rng(ch) : o.uneven THEN {} ELSE Failing({
               <<"noise-mean", Within(mean, 600 * rt)>>,
               <<"noise-variance", Within(var - 100 * N, 850 * rt)>>,
               <<"noise-not-normal", Within(2 * half - N, 6 * rt + N \div 100) /\ big = 0>>,
               <<"noise-correlated", Within(E(LAMBDA e : Lag(1, e)), 600 * rt) /\ Within(E(LAMBDA e : Lag(2, e)), 600 * rt)>>,
               <<"first-coefficient", Within(tied(1), 60 * Sqrt(th2) + N \div 100)>>,
               <<"second-coefficient", Within(tied(2), 60 * Sqrt(th2) + N \div 100)>>,
               <<"turns-not-proportional-to-the-noise", \A q \in 1..Min(Len(ch), Len(r.louder)) : SameTurns(ch[q].th, r.louder[q])>>,
               <<"channels-share-their-noise", Within(pair, 600 * rt)>> }))
Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Report(l, Judge(Trace[l]))
Spec == Init /\ [][Next]_l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
