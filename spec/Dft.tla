---------------------------------- MODULE Dft ----------------------------------
(***************************************************************************)
(* The discrete Fourier transform over a field given by its operations: the   *)
(* value at k is the sum of x[j] * w^(jk).  Direct is the definition, Fast     *)
(* splits by parity of the index; FftNet.tla has TLC compare them.           *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS FAdd(_, _), FSub(_, _), FMul(_, _), FZero, FOne
RECURSIVE FPow(_, _)
FPow(x, k) == IF k = 0 THEN FOne ELSE LET h == FPow(x, k \div 2) h2 == FMul(h, h) IN IF k % 2 = 1 THEN FMul(h2, x) ELSE h2
RECURSIVE Horner(_, _, _, _)
Horner(x, w, j, acc) == IF j = 0 THEN acc ELSE Horner(x, w, j - 1, FAdd(FMul(acc, w), x[j]))
Direct(x, w) == [k \in 1..Len(x) |-> Horner(x, FPow(w, k - 1), Len(x), FZero)]
RECURSIVE Powers(_, _, _)
Powers(w, n, acc) == IF Len(acc) = n THEN acc ELSE Powers(w, n, Append(acc, FMul(acc[Len(acc)], w)))
RECURSIVE FastP(_, _)
\* pw: the powers of the root of order Len(x), from the power zero
FastP(x, pw) == IF Len(x) = 1 THEN x
    ELSE LET h == Len(x) \div 2
             half == SubSeq([j \in 1..h |-> pw[2 * j - 1]], 1, h)
             e == FastP(SubSeq([j \in 1..h |-> x[2 * j - 1]], 1, h), half)
             o == FastP(SubSeq([j \in 1..h |-> x[2 * j]], 1, h), half)
             t == SubSeq([j \in 1..h |-> FMul(pw[j], o[j])], 1, h) IN
         SubSeq([j \in 1..h |-> FAdd(e[j], t[j])], 1, h) \o SubSeq([j \in 1..h |-> FSub(e[j], t[j])], 1, h)
Fast(x, w) == FastP(x, Powers(w, Len(x), <<FOne>>))
\* w has exactly the order 2^d
Primitive(w, d) == IF d = 0 THEN w = FOne ELSE FPow(w, 2 ^ (d - 1)) = FSub(FZero, FOne)
=============================================================================
