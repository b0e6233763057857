----------------------------- MODULE MCListText -----------------------------
(* All texts up to MaxLen characters, one character per step.                 *)
EXTENDS ListText, TLC
CONSTANT MaxLen
Chars == {"[", "]", ",", "a", " "}
VARIABLES text, m
vars == <<text, m>>
Init == text = <<>> /\ m = Start
Next == \E ch \in Chars : Len(text) < MaxLen /\ text' = Append(text, ch) /\ m' = Step(m, ch)
Spec == Init /\ [][Next]_vars

R == Result(m)
Strip(s) == SelectSeq(s, LAMBDA x : x \notin Blank)
RECURSIVE Write(_)
Write(x) == IF ~IsList(x) THEN x.v
            ELSE LET w[i \in 0..Len(x.c)] == IF i = 0 THEN ""
                         ELSE w[i-1] \o (IF i > 1 THEN "," ELSE "") \o Write(x.c[i])
                 IN  "[" \o w[Len(x.c)] \o "]"
Joined(s) == LET w[i \in 0..Len(s)] == IF i = 0 THEN "" ELSE w[i-1] \o s[i] IN w[Len(s)]
(* what was read, written again, is the text: nothing lost, invented or moved *)
RoundTrip == R.ok => Write(R.val) = Joined(Strip(text))
(* accepted lists are balanced and completely enclosed *)
Level(s, k) == Len(SelectSeq(SubSeq(s, 1, k), LAMBDA x : x = "[")) - Len(SelectSeq(SubSeq(s, 1, k), LAMBDA x : x = "]"))
Balanced == R.ok /\ IsList(R.val) =>
    LET s == Strip(text) IN /\ s[1] = "[" /\ s[Len(s)] = "]" /\ Level(s, Len(s)) = 0
                            /\ \A k \in 1..Len(s)-1 : Level(s, k) > 0
(* every text without brackets is one item *)
Plain == (\A i \in 1..Len(text) : text[i] \notin {"[", "]"}) => R = [ok |-> TRUE, val |-> Leaf(Joined(Strip(text)))]
(* once broken, no continuation repairs it *)
Stuck == [][m.st = "bad" => m'.st = "bad"]_vars
(* white space changes nothing *)
BlankFree == Result(m) = ReadText(Strip(text))
=============================================================================
