----------------------------- MODULE Accumulators -----------------------------
(***************************************************************************)
(* Parallel multi-exponentiation: for each window of K bits every thread adds  *)
(* bases to accumulators of its own, the threads' accumulators are packed into   *)
(* the first's, and accumulator times index is summed by halving: the upper      *)
(* half is folded onto the lower one, its total (kept per thread) stands for      *)
(* the top bit.  Which thread takes which index is open.  Points as in Buckets.*)
(* Everything is left zero for the next window; with Clear = FALSE (a folded     *)
(* accumulator is kept) TLC finds the wrong sum.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, K, N, Threads, Clear
VARIABLES s, chunk, pc, i, acc, level, sall, high, results
vars == <<s, chunk, pc, i, acc, level, sall, high, results>>
Chunks == (W - 1) \div K + 1
Zero == [j \in 1..N |-> 0]
Plus(a, b) == [j \in 1..N |-> a[j] + b[j]]
Times(n, a) == [j \in 1..N |-> n * a[j]]
Unit(k) == [j \in 1..N |-> IF j = k THEN 1 ELSE 0]
Window(n, c) == (n \div (2 ^ (c * K))) % (2 ^ K)
RECURSIVE Total(_, _)
Total(f, S) == IF S = {} THEN Zero ELSE LET x == CHOOSE x \in S : TRUE IN Plus(f[x], Total(f, S \ {x}))
T == 1..Threads
Empty == [t \in T |-> [v \in 0..(2 ^ K - 1) |-> Zero]]
Nil == [t \in T |-> Zero]
Init == /\ s \in [1..N -> 0..(2 ^ W - 1)] /\ chunk = 0 /\ pc = "process" /\ i = 1 /\ acc = Empty /\ level = 0 /\ sall = Nil
        /\ high = Zero /\ results = <<>>
Process == /\ pc = "process" /\ i <= N
           /\ LET v == Window(s[i], chunk) IN IF v = 0 THEN acc' = acc ELSE \E t \in T : acc' = [acc EXCEPT ![t][v] = Plus(@, Unit(i))]
           /\ i' = i + 1 /\ UNCHANGED <<s, chunk, pc, level, sall, high, results>>
Pack == /\ pc = "process" /\ i > N
        /\ acc' = [t \in T |-> [v \in 0..(2 ^ K - 1) |-> IF t = 1 THEN Total([u \in T |-> acc[u][v]], T) ELSE Zero]]
        /\ pc' = "fold" /\ level' = K /\ i' = 1 /\ sall' = Nil /\ high' = Zero
        /\ UNCHANGED <<s, chunk, results>>
Fold == /\ pc = "fold" /\ level > 1 /\ i < 2 ^ (level - 1)
        /\ \E t \in T :
             LET up == 2 ^ (level - 1) + i x == acc[1][up] IN
               IF x = Zero THEN t = 1 /\ UNCHANGED <<acc, sall>>
               ELSE acc' = [acc EXCEPT ![1][i] = Plus(@, x), ![1][up] = IF Clear THEN Zero ELSE @] /\ sall' = [sall EXCEPT ![t] = Plus(@, x)]
        /\ i' = i + 1 /\ UNCHANGED <<s, chunk, pc, level, high, results>>
Down == /\ pc = "fold" /\ level > 1 /\ i = 2 ^ (level - 1)
        /\ high' = Plus(high, Times(2 ^ (level - 1), Plus(acc[1][2 ^ (level - 1)], Total(sall, T))))
        /\ acc' = [acc EXCEPT ![1][2 ^ (level - 1)] = Zero] /\ level' = level - 1 /\ i' = 1 /\ sall' = Nil
        /\ UNCHANGED <<s, chunk, pc, results>>
Last == /\ pc = "fold" /\ level = 1
        /\ results' = Append(results, Plus(acc[1][1], high)) /\ acc' = [acc EXCEPT ![1][1] = Zero]
        /\ chunk' = chunk + 1 /\ i' = 1 /\ pc' = IF chunk + 1 = Chunks THEN "end" ELSE "process"
        /\ UNCHANGED <<s, level, sall, high>>
Next == Process \/ Pack \/ Fold \/ Down \/ Last
Clean == (pc = "process" /\ i = 1) \/ pc = "end" => acc = Empty
RECURSIVE Joined(_)
Joined(c) == IF c > Chunks THEN Zero ELSE Plus(results[c], Times(2 ^ K, Joined(c + 1)))
Window1 == \A c \in 1..Len(results) : results[c] = [j \in 1..N |-> Window(s[j], c - 1)]
Right == pc = "end" => Joined(1) = s
Stuck == ~ENABLED Next => pc = "end"
=============================================================================
