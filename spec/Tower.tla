--------------------------------- MODULE Tower ---------------------------------
(***************************************************************************)
(* The tower of extensions as polynomial arithmetic over a field given by    *)
(* its operations:                                                         *)
(*   F2  = F[u] / (u^2 - Nr)          an element <<a, b>> is a + b u          *)
(*   F6  = F2[t] / (t^3 - Xi), Xi = 9 + u   <<x, y, z>> is x t^2 + y t + z   *)
(*   F12 = F6[w] / (w^2 - t)          <<x, y>> is x w + y                     *)
(* (F6 and F12 are used with Nr = -1.)  Products are schoolbook products      *)
(* reduced by the defining polynomial; quotients are characterised by the    *)
(* products they undo.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
LOCAL INSTANCE BigNum
CONSTANTS FZero, FOne, Nr, FAdd(_, _), FSub(_, _), FMul(_, _)

FNeg(x) == FSub(FZero, x)
\* F2
Zero2 == <<FZero, FZero>>
One2  == <<FOne, FZero>>
Add2(a, b) == <<FAdd(a[1], b[1]), FAdd(a[2], b[2])>>
Sub2(a, b) == <<FSub(a[1], b[1]), FSub(a[2], b[2])>>
Mul2(a, b) == <<FAdd(FMul(a[1], b[1]), FMul(Nr, FMul(a[2], b[2]))), FAdd(FMul(a[1], b[2]), FMul(a[2], b[1]))>>
Conj2(a)   == <<a[1], FNeg(a[2])>>
Norm2(a)   == FSub(FMul(a[1], a[1]), FMul(Nr, FMul(a[2], a[2])))
Unit2(a)   == Norm2(a) # FZero
Scal2(a, s) == <<FMul(a[1], s), FMul(a[2], s)>>
Xi == LET two == FAdd(FOne, FOne)  four == FAdd(two, two) IN <<FAdd(FAdd(four, four), FOne), FOne>>

\* F6
Zero6 == <<Zero2, Zero2, Zero2>>
One6  == <<Zero2, Zero2, One2>>
Add6(a, b) == <<Add2(a[1], b[1]), Add2(a[2], b[2]), Add2(a[3], b[3])>>
Sub6(a, b) == <<Sub2(a[1], b[1]), Sub2(a[2], b[2]), Sub2(a[3], b[3])>>
Mul6(a, b) ==
    <<Add2(Mul2(a[1], b[3]), Add2(Mul2(a[2], b[2]), Mul2(a[3], b[1]))),
      Add2(Add2(Mul2(a[2], b[3]), Mul2(a[3], b[2])), Mul2(Xi, Mul2(a[1], b[1]))),
      Add2(Mul2(a[3], b[3]), Mul2(Xi, Add2(Mul2(a[1], b[2]), Mul2(a[2], b[1]))))>>
Scal6(a, s) == <<Mul2(a[1], s), Mul2(a[2], s), Mul2(a[3], s)>>
Tau6 == <<Zero2, One2, Zero2>>
\* determinant of multiplication by a
Norm6(a) == LET x == a[1] y == a[2] z == a[3]
                cube(e) == Mul2(e, Mul2(e, e)) xyz == Mul2(x, Mul2(y, z)) three == Add2(xyz, Add2(xyz, xyz)) IN
            Sub2(Add2(Add2(cube(z), Mul2(Xi, cube(y))), Mul2(Mul2(Xi, Xi), cube(x))), Mul2(Xi, three))
Unit6(a) == Unit2(Norm6(a))

\* F12
Zero12 == <<Zero6, Zero6>>
One12  == <<Zero6, One6>>
Add12(a, b) == <<Add6(a[1], b[1]), Add6(a[2], b[2])>>
Sub12(a, b) == <<Sub6(a[1], b[1]), Sub6(a[2], b[2])>>
Mul12(a, b) == <<Add6(Mul6(a[1], b[2]), Mul6(a[2], b[1])), Add6(Mul6(a[2], b[2]), Mul6(Tau6, Mul6(a[1], b[1])))>>
Scal12(a, s) == <<Mul6(a[1], s), Mul6(a[2], s)>>
Conj12(a) == <<Sub6(Zero6, a[1]), a[2]>>
Unit12(a) == Unit6(Sub6(Mul6(a[2], a[2]), Mul6(Tau6, Mul6(a[1], a[1]))))

\* by level
Zero(l) == CASE l = 2 -> Zero2 [] l = 6 -> Zero6 [] l = 12 -> Zero12
One(l)  == CASE l = 2 -> One2  [] l = 6 -> One6  [] l = 12 -> One12
AddL(l, a, b) == CASE l = 2 -> Add2(a, b) [] l = 6 -> Add6(a, b) [] l = 12 -> Add12(a, b)
SubL(l, a, b) == CASE l = 2 -> Sub2(a, b) [] l = 6 -> Sub6(a, b) [] l = 12 -> Sub12(a, b)
MulL(l, a, b) == CASE l = 2 -> Mul2(a, b) [] l = 6 -> Mul6(a, b) [] l = 12 -> Mul12(a, b)
Unit(l, a)    == CASE l = 2 -> Unit2(a)   [] l = 6 -> Unit6(a)   [] l = 12 -> Unit12(a)
\* multiplication by an element of the level below
ScalL(l, a, s) == CASE l = 2 -> Scal2(a, s) [] l = 6 -> Scal6(a, s) [] l = 12 -> Scal12(a, s)
ConjL(l, a) == CASE l = 2 -> Conj2(a) [] l = 12 -> Conj12(a)
\* power by a BigNum
PowL(l, a, e) == LET n == BBits(e) IN
                 FoldLeft(LAMBDA h, k : LET s == MulL(l, h, h) IN IF BBit(e, n - k) = 1 THEN MulL(l, s, a) ELSE s, One(l), [k \in 1..n |-> k])
=============================================================================
