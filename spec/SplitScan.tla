-------------------------------- MODULE SplitScan --------------------------------
(***************************************************************************)
(* The scan that splits a text: one pass over the characters with a count of   *)
(* open parentheses, each piece freed of its redundant parentheses, and all    *)
(* over again on a single piece.  For every text up to a length: it ends, and   *)
(* with the pieces SplitPar names; these are what was put in.                *)
(***************************************************************************)
EXTENDS SplitPar
CONSTANTS Alphabet, MaxLen, AllTexts, FullRange, StopWhenSame
VARIABLES text, cur, i, acc, open, res, pc
vars == <<text, cur, i, acc, open, res, pc>>
Texts == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == /\ text \in {t \in Texts : AllTexts \/ Balanced(t)}
        /\ cur = text /\ i = 1 /\ acc = <<>> /\ open = 0 /\ res = <<>> /\ pc = "scan"
\* parentheses around the whole: as many as stand at both ends, less what the middle goes below
RECURSIVE Both(_, _)
Both(s, n) == IF n < Len(s) /\ s[n + 1] = "(" /\ s[Len(s) - n] = ")" /\ 2 * n < Len(s) THEN Both(s, n + 1) ELSE n
Low(s) == LET d == Depths(s) IN CHOOSE m \in {0} \cup {d[j] : j \in 1..Len(d)} : m <= 0 /\ \A j \in 1..Len(d) : d[j] >= m
Trim(s) == LET ns == Both(s, 0)
               mid == SubSeq(s, ns + 1, IF FullRange THEN Len(s) - ns ELSE Len(s) - 2 * ns)
               n == ns + Low(mid) IN
           IF n <= 0 THEN s ELSE SubSeq(s, n + 1, Len(s) - n)
Step == /\ pc = "scan" /\ i <= Len(cur)
        /\ i' = i + 1
        /\ LET c == cur[i] IN
             IF c \in Space THEN UNCHANGED <<acc, open, res>>
             ELSE IF c = "," /\ open = 0 THEN res' = Append(res, Trim(acc)) /\ acc' = <<>> /\ UNCHANGED open
             ELSE open' = open + Up(c) /\ acc' = Append(acc, c) /\ UNCHANGED res
        /\ UNCHANGED <<text, cur, pc>>
Finish == /\ pc = "scan" /\ i > Len(cur)
          /\ LET r == Append(res, Trim(acc)) IN
               IF Len(r) = 1 /\ ~(StopWhenSame /\ r[1] = cur)
               THEN cur' = Trim(r[1]) /\ i' = 1 /\ acc' = <<>> /\ open' = 0 /\ res' = <<>> /\ UNCHANGED <<text, pc>>
               ELSE res' = r /\ pc' = "done" /\ UNCHANGED <<text, cur, i, acc, open>>
Done == pc = "done" /\ UNCHANGED vars
Next == Step \/ Finish \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Step \/ Finish)
Terminates == <>(pc = "done")
Right == pc = "done" /\ Balanced(text) => res = Split(text)
\* the pieces put together again are the text without white space and redundant parentheses
Content == LET q == Split(text) IN
    Balanced(text) /\ pc = "done" =>
      /\ Core(Join(q)) = Core(Bare(text))
      /\ Len(q) = Len(Cuts(Strip(Bare(text)))) + 1
      /\ \A j \in 1..Len(q) : Balanced(q[j]) /\ ~Redundant(q[j]) /\ \A x \in 1..Len(q[j]) : q[j][x] \notin Space
      /\ Split(Wrap(text)) = q
      /\ Split(Join([j \in 1..Len(q) |-> Wrap(q[j])])) = IF Len(q) = 1 THEN Split(q[1]) ELSE q
=============================================================================
