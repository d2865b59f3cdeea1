------------------------------- MODULE BigField -------------------------------
(* Arithmetic modulo a big prime (BigNum), and its quadratic extension by a square root of -1. *)
EXTENDS Integers, Sequences, TLC
LOCAL INSTANCE BigNum
CONSTANT Q
QAdd(x, y) == BMod(BAdd(x, y), Q)
QSub(x, y) == BMod(BSub(x, y), Q)
QMul(x, y) == BMod(BMul(x, y), Q)
QInv(x) == BInvMod(x, Q)
QDec(x, r) == BFormat(x, r)
Q2Zero == <<"0", "0">>
Q2One == <<"1", "0">>
Q2Add(x, y) == <<QAdd(x[1], y[1]), QAdd(x[2], y[2])>>
Q2Sub(x, y) == <<QSub(x[1], y[1]), QSub(x[2], y[2])>>
Q2Mul(x, y) == <<BMod(BSub(BMul(x[1], y[1]), BMul(x[2], y[2])), Q), BMod(BAdd(BMul(x[1], y[2]), BMul(x[2], y[1])), Q)>>
Q2Inv(x) == LET d == QInv(BMod(BAdd(BMul(x[1], x[1]), BMul(x[2], x[2])), Q)) IN <<QMul(x[1], d), QMul(QSub("0", x[2]), d)>>
Q2Dec(x, r) == "(" \o BFormat(x[1], r) \o "," \o BFormat(x[2], r) \o ")"
=============================================================================
