---------------------------------- MODULE EC ----------------------------------
(***************************************************************************)
(* The group of points of y^2 = x^3 + CA x + CB over a field given by its   *)
(* operations.  A point is <<x, y>>, the point at infinity is <<>>.         *)
(*                                                                         *)
(* The library stores points in two ways: affine (x, y), with (0, 0) for    *)
(* infinity, and extended (x, y, zz, zzz) standing for (x/zz, y/zzz) with   *)
(* zz^3 = zzz^2, where zz = 0 means infinity.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE BigNum

CONSTANTS FZero, FOne, CA, CB, FAdd(_, _), FSub(_, _), FMul(_, _), FInv(_)

Inf == <<>>
Sq(x) == FMul(x, x)
On(p) == p = Inf \/ Sq(p[2]) = FAdd(FAdd(FMul(Sq(p[1]), p[1]), FMul(CA, p[1])), CB)
Neg(p) == IF p = Inf THEN Inf ELSE <<p[1], FSub(FZero, p[2])>>

\* third point on the line of slope l through p (and q)
Chord(l, p, q) == LET x3 == FSub(FSub(Sq(l), p[1]), q[1]) IN <<x3, FSub(FMul(l, FSub(p[1], x3)), p[2])>>
Add(p, q) ==
    IF p = Inf THEN q
    ELSE IF q = Inf THEN p
    ELSE IF p[1] # q[1] THEN Chord(FMul(FSub(q[2], p[2]), FInv(FSub(q[1], p[1]))), p, q)
    ELSE IF p[2] = q[2] /\ p[2] # FZero
         THEN LET x2 == Sq(p[1]) IN Chord(FMul(FAdd(FAdd(FAdd(x2, x2), x2), CA), FInv(FAdd(p[2], p[2]))), p, p)
    ELSE Inf
Sub(p, q) == Add(p, Neg(q))

\* multiple by a non-negative BigNum
RECURSIVE MulBits(_, _, _)
MulBits(k, n, p) == IF n = 0 THEN Inf
                    ELSE LET h == MulBits(k, n - 1, p)
                             d == Add(h, h) IN
                         IF BBit(k, BBits(k) - n) = 1 THEN Add(d, p) ELSE d
Mul(k, p) == IF p = Inf THEN Inf ELSE MulBits(k, BBits(k), p)

\* the stored forms
IsExt(s)  == Len(s) = 4
ExtOK(s)  == s[3] = FZero \/ FMul(Sq(s[3]), s[3]) = Sq(s[4])
OfAff(s)  == IF s[1] = FZero /\ s[2] = FZero THEN Inf ELSE s
OfExt(s)  == IF s[3] = FZero THEN Inf ELSE <<FMul(s[1], FInv(s[3])), FMul(s[2], FInv(s[4]))>>
Of(s)     == IF IsExt(s) THEN OfExt(s) ELSE OfAff(s)
\* s stores the point p (checked without division for finite extended forms)
Stores(s, p) ==
    IF IsExt(s) THEN
        IF p = Inf THEN s[3] = FZero
        ELSE s[3] # FZero /\ ExtOK(s) /\ s[1] = FMul(p[1], s[3]) /\ s[2] = FMul(p[2], s[4])
    ELSE OfAff(s) = p
\* the extended form of p with scale l
Ext(p, l) == LET l2 == Sq(l) l3 == FMul(l2, l) IN <<FMul(p[1], l2), FMul(p[2], l3), l2, l3>>
=============================================================================
