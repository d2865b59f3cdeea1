-------------------------------- MODULE Buckets --------------------------------
(***************************************************************************)
(* The bucket method with signed windows.  Windows are handed to workers;     *)
(* each has a row of buckets, clears it, adds every base to (or subtracts it   *)
(* from) the bucket of its digit, and sums bucket times index by a running     *)
(* sum from the top; the sums are joined by doublings.  A point is written as   *)
(* its coordinates on the bases, so that the result is right for any group if    *)
(* it is the scalars themselves.  Any worker may take any step at any time.   *)
(* Enough = FALSE takes one window per K bits begun: TLC finds the lost carry. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W, K, N, Workers, Enough
VARIABLES s, open, at, row, sums, result
vars == <<s, open, at, row, sums, result>>
Chunks == IF Enough THEN (W + 1) \div K + 1 ELSE (W - 1) \div K + 1
Half == 2 ^ (K - 1)
Zero == [i \in 1..N |-> 0]
Plus(a, b) == [i \in 1..N |-> a[i] + b[i]]
Times(n, a) == [i \in 1..N |-> n * a[i]]
Unit(j, n) == [i \in 1..N |-> IF i = j THEN n ELSE 0]
RECURSIVE CarryInto(_, _), Digit(_, _)
Window(n, c) == (n \div (2 ^ (c * K))) % (2 ^ K)
CarryInto(n, c) == IF c = 0 THEN 0 ELSE IF Window(n, c - 1) + CarryInto(n, c - 1) >= Half THEN 1 ELSE 0
Digit(n, c) == LET v == Window(n, c) + CarryInto(n, c) IN IF v >= Half THEN v - 2 * Half ELSE v
Init == /\ s \in [1..N -> 0..(2 ^ W - 1)]
        /\ open = 0..(Chunks - 1) /\ at = [w \in 1..Workers |-> <<>>]
        /\ row = [w \in 1..Workers |-> [b \in 1..Half |-> Unit(1, 99)]]      \* a row starts with whatever was there
        /\ sums = [c \in 0..(Chunks - 1) |-> <<>>] /\ result = <<>>
\* a worker that has no window takes one and clears its row
Take(w) == /\ at[w] = <<>> /\ open # {}
           /\ \E c \in open : /\ at' = [at EXCEPT ![w] = <<c, 1>>] /\ open' = open \ {c}
           /\ row' = [row EXCEPT ![w] = [b \in 1..Half |-> Zero]]
           /\ UNCHANGED <<s, sums, result>>
Add(w) == /\ at[w] # <<>> /\ at[w][2] <= N
          /\ LET i == at[w][2] d == Digit(s[i], at[w][1]) IN
               row' = IF d = 0 THEN row ELSE IF d > 0 THEN [row EXCEPT ![w][d] = Plus(@, Unit(i, 1))] ELSE [row EXCEPT ![w][-d] = Plus(@, Unit(i, -1))]
          /\ at' = [at EXCEPT ![w][2] = @ + 1]
          /\ UNCHANGED <<s, open, sums, result>>
RECURSIVE Running(_, _, _, _)
Running(r, b, tmp, t) == IF b = 0 THEN t ELSE LET n == Plus(tmp, r[b]) IN Running(r, b - 1, n, Plus(t, n))
Sum(w) == /\ at[w] # <<>> /\ at[w][2] > N
          /\ sums' = [sums EXCEPT ![at[w][1]] = Running(row[w], Half - 1, row[w][Half], row[w][Half])]
          /\ at' = [at EXCEPT ![w] = <<>>]
          /\ UNCHANGED <<s, open, row, result>>
RECURSIVE Joined(_, _)
Joined(r, c) == IF c < 0 THEN r ELSE Joined(Plus(Times(2 ^ K, r), sums[c]), c - 1)
Join == /\ result = <<>> /\ \A c \in 0..(Chunks - 1) : sums[c] # <<>>
        /\ result' = Joined(sums[Chunks - 1], Chunks - 2)
        /\ UNCHANGED <<s, open, at, row, sums>>
Next == Join \/ \E w \in 1..Workers : Take(w) \/ Add(w) \/ Sum(w)
\* the sum of a window is the digits, a row is one worker's
Sums == \A c \in 0..(Chunks - 1) : sums[c] = <<>> \/ sums[c] = [i \in 1..N |-> Digit(s[i], c)]
Right == result = <<>> \/ result = s
Stuck == ~ENABLED Next => result # <<>>
=============================================================================
