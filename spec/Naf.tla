---------------------------------- MODULE Naf ----------------------------------
(***************************************************************************)
(* Signed-digit recoding as a machine that reads the bits of a scalar from   *)
(* the low end with one bit of look-ahead and writes one digit per bit.      *)
(* State: bits already read, the carry, and the bit about to be recoded.     *)
(* TLC runs it on every scalar of up to W bits: whatever prefix has been     *)
(* read, digits written plus carry are worth that prefix, and no two          *)
(* neighbouring digits are non-zero.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANT W
VARIABLES s, pos, carry, out
Bit(n, k) == (n \div (2 ^ k)) % 2
Init == s \in 0..(2 ^ W - 1) /\ pos = 0 /\ carry = 0 /\ out = <<>>
\* the digit for the sum of this bit and the carry; an odd sum before a set bit becomes -1 and carries on
Digit == LET t == Bit(s, pos) + carry IN
         IF t = 2 THEN [d |-> 0, c |-> 1] ELSE IF t = 0 THEN [d |-> 0, c |-> 0]
         ELSE IF Bit(s, pos + 1) = 1 THEN [d |-> -1, c |-> 1] ELSE [d |-> 1, c |-> 0]
Next == /\ pos < W + 2
        /\ out' = Append(out, Digit.d) /\ carry' = Digit.c /\ pos' = pos + 1 /\ UNCHANGED s
RECURSIVE Worth(_, _)
Worth(d, n) == IF n = 0 THEN 0 ELSE Worth(d, n - 1) + d[n] * 2 ^ (n - 1)
PrefixExact == Worth(out, Len(out)) + carry * 2 ^ pos = s % (2 ^ pos)
Sparse == \A k \in 1..(Len(out) - 1) : out[k] = 0 \/ out[k + 1] = 0
Ends == pos = W + 2 => carry = 0 /\ Worth(out, Len(out)) = s
=============================================================================
