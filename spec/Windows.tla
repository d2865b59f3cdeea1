-------------------------------- MODULE Windows --------------------------------
(***************************************************************************)
(* The windowed recoding behind the bucket method: a scalar of W bits is cut  *)
(* into windows of K bits from the low end; a window value (plus the carry    *)
(* from below) of at least 2^(K-1) is lowered by 2^K and carries one upward.   *)
(* Run to the window that no scalar bit reaches, the digits are exact; the     *)
(* number of windows needed is (W + 1) div K + 1: the last one must stay below   *)
(* one half even with a carry into it.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS W, K
VARIABLES s, j, carry, digits
Chunks == (W + 1) \div K + 1
Window(n, c) == (n \div (2 ^ (c * K))) % (2 ^ K)
Init == s \in 0..(2 ^ W - 1) /\ j = 0 /\ carry = 0 /\ digits = <<>>
Next == /\ j < Chunks
        /\ LET v == Window(s, j) + carry
               high == v >= 2 ^ (K - 1) IN
             /\ digits' = Append(digits, IF high THEN v - 2 ^ K ELSE v)
             /\ carry' = IF high THEN 1 ELSE 0
        /\ j' = j + 1 /\ UNCHANGED s
RECURSIVE Worth(_, _)
Worth(d, n) == IF n = 0 THEN 0 ELSE Worth(d, n - 1) + d[n] * 2 ^ ((n - 1) * K)
PrefixExact == Worth(digits, Len(digits)) + carry * 2 ^ (j * K) = s % (2 ^ (j * K))
Small == \A n \in 1..Len(digits) : digits[n] >= -(2 ^ (K - 1)) /\ digits[n] < 2 ^ (K - 1)
\* nothing is left over after the last window
Ends == j = Chunks => carry = 0 /\ Worth(digits, Len(digits)) = s
=============================================================================
