-------------------------------- MODULE FftNet --------------------------------
(***************************************************************************)
(* The in-place transform as an algorithm: exchange positions by bit          *)
(* reversal, then D stages of butterflies; within a phase the steps may be     *)
(* taken in any order (the workers').  Checked over all orders: the result    *)
(* is the definition's, steps of one phase touch disjoint positions, and the   *)
(* inverse (transform, mirror, scale by the inverse size) undoes it.          *)
(***************************************************************************)
EXTENDS Dft, ToyField, FiniteSets
CONSTANTS D, Root      \* size 2^D, a root of that order
VARIABLES x, a, stage, todo
vars == <<x, a, stage, todo>>
N == 2 ^ D
RECURSIVE Rev(_, _)
Rev(n, b) == IF b = 0 THEN 0 ELSE Rev(n \div 2, b - 1) + (n % 2) * 2 ^ (b - 1)
\* the steps of a phase and the positions (from 0) each touches
Swaps == {i \in 0..(N - 1) : i > Rev(i, D)}
Touch(s, i) == IF s = 0 THEN {i, Rev(i, D)}
               ELSE IF s <= D THEN LET h == 2 ^ (s - 1) k == (i \div h) * 2 * h j == i % h IN {k + j, k + j + h}
               ELSE {i, (N - i) % N}
Steps(s) == IF s = 0 THEN Swaps ELSE IF s <= D THEN 0..(N \div 2 - 1) ELSE 0..(N \div 2)
Inverse(n) == TInv(n % P)
Do(s, i) ==
    IF s = 0 THEN [a EXCEPT ![i + 1] = a[Rev(i, D) + 1], ![Rev(i, D) + 1] = a[i + 1]]
    ELSE IF s <= D THEN
        LET h == 2 ^ (s - 1) k == (i \div h) * 2 * h j == i % h
            t == TMul(FPow(Root, j * 2 ^ (D - s)), a[k + j + h + 1]) u == a[k + j + 1] IN
        [a EXCEPT ![k + j + 1] = TAdd(t, u), ![k + j + h + 1] = TSub(u, t)]
    ELSE LET m == (N - i) % N c == Inverse(N) IN
         IF m = i THEN [a EXCEPT ![i + 1] = TMul(@, c)]
         ELSE [a EXCEPT ![i + 1] = TMul(a[m + 1], c), ![m + 1] = TMul(a[i + 1], c)]
\* the phases: 0 reversal, 1..D butterflies; a second round of those and the mirror for the inverse (stage counts on)
PhaseOf(st) == IF st <= D THEN st ELSE st - D - 1
Last == 2 * (D + 1)
Inputs == [1..N -> 0..(P - 1)]
Init == x \in Inputs /\ a = x /\ stage = 0 /\ todo = Steps(0)
Step == \E i \in todo : a' = Do(PhaseOf(stage), i) /\ todo' = todo \ {i} /\ UNCHANGED <<x, stage>>
Advance == todo = {} /\ stage < Last /\ stage' = stage + 1 /\ todo' = Steps(PhaseOf(stage + 1)) /\ UNCHANGED <<x, a>>
Next == Step \/ Advance
Disjoint == \A i, j \in Steps(PhaseOf(stage)) : i # j => Touch(PhaseOf(stage), i) \cap Touch(PhaseOf(stage), j) = {}
Forward == (stage = D /\ todo = {}) => (a = Direct(x, Root) /\ a = Fast(x, Root))
Undone == (stage = Last /\ todo = {}) => a = x
=============================================================================
