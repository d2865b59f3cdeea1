------------------------------- MODULE ToyField -------------------------------
(* Arithmetic modulo a small prime in plain TLA+ integers, and its quadratic extension by a square root of Nr. *)
EXTENDS Integers, Sequences, TLC
LOCAL INSTANCE BigNum
CONSTANTS P, Nr
TAdd(x, y) == (x + y) % P
TSub(x, y) == (x - y) % P
TMul(x, y) == (x * y) % P
RECURSIVE TPow(_, _)
TPow(x, k) == IF k = 0 THEN 1 ELSE LET h == TPow(x, k \div 2) h2 == (h * h) % P IN IF k % 2 = 1 THEN (h2 * x) % P ELSE h2
TInvTab == [x \in 0..(P - 1) |-> IF x = 0 THEN 0 ELSE TPow(x, P - 2)]
TInv(x) == TInvTab[x]
TDec(x, r) == BFormat(BInt(x), r)
T2Zero == <<0, 0>>
T2One == <<1, 0>>
T2Add(x, y) == <<TAdd(x[1], y[1]), TAdd(x[2], y[2])>>
T2Sub(x, y) == <<TSub(x[1], y[1]), TSub(x[2], y[2])>>
T2Mul(x, y) == <<TAdd(TMul(x[1], y[1]), TMul(Nr, TMul(x[2], y[2]))), TAdd(TMul(x[1], y[2]), TMul(x[2], y[1]))>>
T2Inv(x) == LET d == TInv(TSub(TMul(x[1], x[1]), TMul(Nr, TMul(x[2], x[2])))) IN <<TMul(x[1], d), TMul(TSub(0, x[2]), d)>>
T2Dec(x, r) == "(" \o TDec(x[1], r) \o "," \o TDec(x[2], r) \o ")"
=============================================================================
