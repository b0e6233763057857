----------------------------- MODULE MCPlacement -----------------------------
(* The placement of one element's objects as a machine: level by level from the   *)
(* top.  Positions are kept on a line of length Lx; a migrating trough is its     *)
(* predecessor shifted by the step.                                               *)
EXTENDS Placement, SequencesExt, IOUtils, Json, TLC
CONSTANTS Tops, Bottoms, Aggs, Buffers, Depth, Lx, Counts, Steps, Angles, NegAngles
VARIABLES kind, top, limit, agg, step, z, no, objs
vars == <<kind, top, limit, agg, step, z, no, objs>>
Init == /\ kind \in {"trough", "channel"} /\ top \in Tops /\ agg \in Aggs /\ step \in Steps
        /\ \E b \in Bottoms, f \in Buffers : limit = Limit(b, Depth, f)
        /\ z = top - First(kind) * agg /\ no = 0 /\ objs = <<>>
Level == /\ z > limit
         /\ no' = no + 1 /\ z' = z - agg
         /\ \E n \in Counts :
              IF no = 0 \/ (kind = "trough" /\ step = 0)
              THEN \E xs \in [1..n -> {0, Lx}] : objs' = objs \o [q \in 1..n |-> [x |-> xs[q], z |-> z, lv |-> no]]
              ELSE LET last == SelectSeq(objs, LAMBDA o : o.lv = no - 1)
                   IN  objs' = objs \o [q \in 1..Len(last) |-> [x |-> last[q].x + step, z |-> z, lv |-> no]]
         /\ UNCHANGED <<kind, top, limit, agg, step>>
Next == Level
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == z <= limit
OnLevels == \A q \in 1..Len(objs) : objs[q].z = Levels(kind, top, limit, agg)[objs[q].lv + 1]
InElement == \A q \in 1..Len(objs) : objs[q].z > limit /\ objs[q].z <= top - First(kind) * agg
FromTop == \A q \in 1..Len(objs) - 1 : objs[q].z >= objs[q + 1].z
AllLevels == Done => no = Len(Levels(kind, top, limit, agg))
OnLv(k) == SelectSeq(objs, LAMBDA o : o.lv = k)
Followers == step # 0 => \A k \in 1..no - 1 : Len(OnLv(k)) = Len(OnLv(k - 1)) /\ \A q \in 1..Len(OnLv(k)) : OnLv(k)[q].x = OnLv(k - 1)[q].x + step
Terminates == <>Done
(* geometry of directions *)
Dirs == Angles \cup {-a : a \in NegAngles}
ASSUME \A a \in Dirs : LET L == DomainLength(8000, 6000, a) W == DomainWidth(8000, 6000, a) IN
    /\ \A p \in {<<4000, 3000>>, <<4000, -3000>>, <<-4000, 3000>>, <<-4000, -3000>>} :
         Abs(Along(p[1], p[2], a)) <= L \div 2 + 2 /\ Abs(Across(p[1], p[2], a)) <= W \div 2 + 2
    /\ Near(L * L + W * W, 100000000 + 2 * Abs(Rot(Rot(96000, Sin(a), 0, 0), Cos(a), 0, 0)) * 1000, 150000)
Cases == {[op |-> "troughs", buffer |-> b, rough |-> r, elements |-> e] : b \in {0, 250, 500, 1000}, r \in BOOLEAN, e \in {"one", "thin", "strata"}}
    \cup {[op |-> "migrate", step |-> s, elements |-> e] : s \in {<<1500, 0, 0, 0>>, <<-700, 0, 400, 0>>, <<300, 0, -1250, 0>>, <<0, 1000, 2000, 0>>, <<500, 0, 0, 1000>>}, e \in {"one", "thin"}}
    \cup {[op |-> "manual", order |-> o, trend |-> t] : o \in {"down", "up", "mixed"}, t \in BOOLEAN}
    \cup {[op |-> "spread", density |-> d, flow |-> f] : d \in {500, 1500, 6000}, f \in {<<0, 90>>, <<-60, 30>>, <<150, 200>>}}
    \cup {[op |-> "channels", angle |-> a, number |-> n, buffer |-> b, mig |-> m, trend |-> t, elements |-> e] :
            a \in Dirs, n \in 1..3, b \in {0, 500}, m \in {-1, 0, 800}, t \in BOOLEAN, e \in {"one", "thin", "strata"}}
    \cup {[op |-> "meanders", angle |-> a, eps |-> p] : a \in Dirs, p \in {10, 30}}
    \cup {[op |-> "starts", angle |-> a] : a \in Dirs}
    \cup {[op |-> "ferguson", hk |-> q, eps |-> p] : q \in 1..3, p \in {10, 25}}
ASSUME "OUT" \in DOMAIN IOEnv => ndJsonSerialize(IOEnv.OUT, SetToSeq(Cases))
=============================================================================
