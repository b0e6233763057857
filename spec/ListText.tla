------------------------------ MODULE ListText ------------------------------
(* Reading a list text character by character: a push-down machine.           *)
(* Characters are one-character strings; white space is any of Blank.         *)
EXTENDS Tree

Blank == {" ", "\n", "\t", "\r", "\f"}
(* an item is a leaf whose value is its text *)
Start == [stack |-> <<>>, cur |-> "", st |-> "item", seen |-> FALSE, top |-> Leaf("")]
(* stack: open lists, innermost last, each a sequence of finished items        *)
(* cur: text of the item being read; st: "item" reading an item, "after" behind *)
(* a closing bracket, "fresh" directly behind an opening bracket, "done" behind *)
(* the last closing bracket, "flat" a text without brackets, "bad"              *)
Bad(m) == [m EXCEPT !.st = "bad"]
Add(m, x) == [m EXCEPT !.stack[Len(m.stack)] = Append(@, x)]
Close(m) ==   \* pop the innermost list
    LET n == Len(m.stack)
        x == List(m.stack[n])
    IN  IF n = 1 THEN [m EXCEPT !.stack = <<>>, !.st = "done", !.top = x, !.cur = ""]
        ELSE [Add([m EXCEPT !.stack = SubSeq(m.stack, 1, n-1)], x) EXCEPT !.st = "after", !.cur = ""]
Step(m, ch) ==
    IF m.st = "bad" \/ ch \in Blank THEN m
    ELSE IF m.st = "done" THEN Bad(m)
    ELSE IF m.stack = <<>> THEN
        (* outside of any list: only at the very start may a list begin *)
        IF ch = "[" THEN IF m.seen THEN Bad(m)
                         ELSE [m EXCEPT !.stack = <<<<>>>>, !.st = "fresh", !.seen = TRUE]
        ELSE IF ch = "]" THEN Bad(m)
        ELSE [m EXCEPT !.cur = @ \o ch, !.seen = TRUE]
    ELSE IF ch = "[" THEN
        IF m.st = "after" \/ m.cur # "" THEN Bad(m)
        ELSE [m EXCEPT !.stack = Append(@, <<>>), !.st = "fresh"]
    ELSE IF ch = "]" THEN
        IF m.st \in {"fresh", "after"} THEN Close(m) ELSE Close(Add(m, Leaf(m.cur)))
    ELSE IF ch = "," THEN
        IF m.st = "after" THEN [m EXCEPT !.st = "item"]
        ELSE [Add(m, Leaf(m.cur)) EXCEPT !.st = "item", !.cur = ""]
    ELSE IF m.st = "after" THEN Bad(m)
    ELSE [m EXCEPT !.cur = @ \o ch, !.st = "item"]

(* verdict when the text ends *)
Result(m) == IF m.st = "bad" \/ m.stack # <<>> THEN [ok |-> FALSE, val |-> Leaf("")]
             ELSE IF m.st = "done" THEN [ok |-> TRUE, val |-> m.top]
             ELSE [ok |-> TRUE, val |-> Leaf(m.cur)]

ReadText(chars) == LET run[i \in 0..Len(chars)] == IF i = 0 THEN Start ELSE Step(run[i-1], chars[i])
                   IN  Result(run[Len(chars)])

(* entries that must be numbers *)
RECURSIVE AllLeaves(_, _)
AllLeaves(x, S) == IF IsList(x) THEN \A i \in 1..Len(x.c) : AllLeaves(x.c[i], S) ELSE x.v \in S
=============================================================================
