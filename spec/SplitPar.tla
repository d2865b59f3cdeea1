-------------------------------- MODULE SplitPar --------------------------------
(***************************************************************************)
(* Splitting a parenthesised list at its top level, as a function of the text;*)
(* texts are sequences of characters.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
Space == {" ", "\t", "\n", "\r", "\f", ""}   \* the last one is the vertical tab
Bare(s) == SelectSeq(s, LAMBDA c : c \notin Space)
Up(c) == CASE c = "(" -> 1 [] c = ")" -> -1 [] OTHER -> 0
\* the depth after each character
Depths(s) == FoldLeft(LAMBDA a, c : Append(a, (IF a = <<>> THEN 0 ELSE a[Len(a)]) + Up(c)), <<>>, s)
Balanced(s) == LET d == Depths(s) IN s = <<>> \/ (d[Len(d)] = 0 /\ \A i \in 1..Len(d) : d[i] >= 0)
Inner(s) == SubSeq(s, 2, Len(s) - 1)
Redundant(s) == Len(s) >= 2 /\ s[1] = "(" /\ s[Len(s)] = ")" /\ Balanced(Inner(s))
RECURSIVE Strip(_)
Strip(s) == IF Redundant(s) THEN Strip(Inner(s)) ELSE s
\* the commas at the top level
Cuts(s) == LET d == Depths(s) IN SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = "," /\ d[i] = 0)
Parts(s) == LET c == <<0>> \o Cuts(s) \o <<Len(s) + 1>> IN [j \in 1..(Len(c) - 1) |-> SubSeq(s, c[j] + 1, c[j + 1] - 1)]
Split(s) == LET t == Strip(Bare(s)) q == Parts(t) IN [j \in 1..Len(q) |-> Strip(q[j])]
\* ---- what this means -------------------------------------------------------
Join(q) == IF q = <<>> THEN <<>> ELSE Tail(FoldLeft(LAMBDA a, p : a \o <<",">> \o p, <<>>, q))
Core(s) == SelectSeq(s, LAMBDA c : c \notin {"(", ")"})
Wrap(s) == <<"(">> \o s \o <<")">>
=============================================================================
