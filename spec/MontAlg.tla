-------------------------------- MODULE MontAlg --------------------------------
(***************************************************************************)
(* The word-by-word Montgomery product the generators emit, over words of W  *)
(* bits, with and without the "no carry" rule.  For every word of the first  *)
(* operand the accumulator takes in one row of products and one multiple of  *)
(* the modulus and drops its lowest word.                                    *)
(*                                                                         *)
(* Rule = TRUE: the accumulator has N+1 words of which the last is cleared   *)
(* in every round, and carries out of it are dropped - sound only if the     *)
(* modulus leaves room, which is the condition the generators test.          *)
(* Rule = FALSE: N+2 words, the last keeping the carry between rounds.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS W, N, Rule, Moduli
D == 2 ^ W
R == 2 ^ (W * N)
Word(x, j) == (x \div 2 ^ (W * j)) % D
Top(q) == Word(q, N - 1)
CanOptimize(q) == Top(q) <= (D - 1) \div 2 - 1     \* the generators' test, of the top word only
Np(q) == CHOOSE n \in 0..(D - 1) : (q * n + 1) % D = 0

VARIABLES q, a, b, i, t, half      \* t: the accumulator; half: the row of products is in, the reduction is not
mvars == <<q, a, b, i, t, half>>
MInit == /\ q \in Moduli /\ a \in 0..(q - 1) /\ b \in 0..(q - 1)
         /\ i = 0 /\ t = 0 /\ half = FALSE
Cap == IF Rule THEN D ^ (N + 1) ELSE D ^ (N + 2)   \* what the accumulator can hold
Row == /\ i < N /\ ~half
       /\ t' = ((IF Rule THEN t % R ELSE t) + Word(a, i) * b) % Cap
       /\ half' = TRUE /\ UNCHANGED <<q, a, b, i>>
Reduce == /\ half
          /\ LET m == ((t % D) * Np(q)) % D IN t' = ((t + m * q) \div D) % (IF Rule THEN R ELSE D ^ (N + 1))
          /\ half' = FALSE /\ i' = i + 1 /\ UNCHANGED <<q, a, b>>
MNext == Row \/ Reduce
MSpec == MInit /\ [][MNext]_mvars

Result == IF t >= q THEN t - q ELSE t
\* between rounds the accumulator is below twice the modulus
Bounded == ~half => t < 2 * q
Right == i = N => Result < q /\ (Result * R) % q = (a * b) % q
=============================================================================
