---------------------------- MODULE TowerTraceBig ----------------------------
EXTENDS TowerTrace, BigField
QDecR(x, r) == BFormat(x, r)
QParse(t) == BMod(BParse(t, 10), Q)
\* t^Q = t Xi^((Q-1)/3),  w^Q = w Xi^((Q-1)/6),  u^Q = -u: the Q-th power map on the coefficients
Sixth == BDiv(BSub(Q, "1"), "6")
G1 == PowL(2, Xi, Sixth)
G2 == Mul2(G1, G1)
G4 == Mul2(G2, G2)
Frob6(a) == <<Mul2(Conj2(a[1]), G4), Mul2(Conj2(a[2]), G2), Conj2(a[3])>>
Frob12(a) == <<Scal6(Frob6(a[1]), G1), Frob6(a[2])>>
QFrob(l, a) == IF l = 6 THEN Frob6(a) ELSE Frob12(a)
ASSUME BMod(BSub(Q, "1"), "6") = "0" /\ BMod(Q, "4") = "3"
=============================================================================
