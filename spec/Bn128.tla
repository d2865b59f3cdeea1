--------------------------------- MODULE Bn128 ---------------------------------
(***************************************************************************)
(* The bn128 (alt_bn128, BN254) setting, derived from the Barreto-Naehrig    *)
(* parameter: base prime, group order, twist and the published generators.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
LOCAL INSTANCE BigNum
BnDec(t) == BParse(t, 10)
BnT == BnDec("4965661367192848881")
BnT2 == BMul(BnT, BnT)
BnT3 == BMul(BnT2, BnT)
BnT4 == BMul(BnT2, BnT2)
BnK(n, x) == BMul(BInt(n), x)
BnSum(a, b, c, d, e) == BAdd(a, BAdd(b, BAdd(c, BAdd(d, e))))
BnQ == BnSum(BnK(36, BnT4), BnK(36, BnT3), BnK(24, BnT2), BnK(6, BnT), "1")
BnR == BnSum(BnK(36, BnT4), BnK(36, BnT3), BnK(18, BnT2), BnK(6, BnT), "1")
BnTrace == BAdd(BnK(6, BnT2), "1")
ASSUME BAdd(BnR, BnTrace) = BAdd(BnQ, "1")                       \* r = q + 1 - trace: the order of the first group
ASSUME BnQ = BnDec("21888242871839275222246405745257275088696311157297823662689037894645226208583")
ASSUME BnR = BnDec("21888242871839275222246405745257275088548364400416034343698204186575808495617")
ASSUME BPowMod("2", BSub(BnQ, "1"), BnQ) = "1" /\ BPowMod("2", BSub(BnR, "1"), BnR) = "1"

\* q = 3 (mod 4): -1 is not a square; q^2 = 1 (mod 6) and 9 + u is neither a square nor a cube
BnMul(x, y) == BMod(BMul(x, y), BnQ)
BnAdd(x, y) == BMod(BAdd(x, y), BnQ)
BnSub(x, y) == BMod(BSub(x, y), BnQ)
Bn2Mul(x, y) == <<BnSub(BnMul(x[1], y[1]), BnMul(x[2], y[2])), BnAdd(BnMul(x[1], y[2]), BnMul(x[2], y[1]))>>
Bn2Inv(x) == LET d == BInvMod(BnAdd(BnMul(x[1], x[1]), BnMul(x[2], x[2])), BnQ) IN <<BnMul(x[1], d), BnMul(BnSub("0", x[2]), d)>>
RECURSIVE Bn2Pow(_, _, _)
Bn2Pow(x, e, n) == IF n = 0 THEN <<"1", "0">>
                   ELSE LET h == Bn2Pow(x, e, n - 1)  s == Bn2Mul(h, h) IN IF BBit(e, BBits(e) - n) = 1 THEN Bn2Mul(s, x) ELSE s
BnXi == <<"9", "1">>
BnQ2m1 == BSub(BMul(BnQ, BnQ), "1")
ASSUME BMod(BnQ, "4") = "3"
ASSUME LET e == BDiv(BnQ2m1, "2") IN Bn2Pow(BnXi, e, BBits(e)) # <<"1", "0">>
ASSUME LET e == BDiv(BnQ2m1, "3") IN Bn2Pow(BnXi, e, BBits(e)) # <<"1", "0">>

\* first group: y^2 = x^3 + 3, generator (1, 2)
BnG1A == "0"
BnG1B == "3"
BnG1X == "1"
BnG1Y == "2"
\* second group: the twist y^2 = x^3 + 3 / (9 + u), published generator
BnG2A == <<"0", "0">>
BnG2B == Bn2Mul(<<"3", "0">>, Bn2Inv(BnXi))
BnG2X == <<BnDec("10857046999023057135944570762232829481370756359578518086990519993285655852781"), BnDec("11559732032986387107991004021392285783925812861821192530917403151452391805634")>>
BnG2Y == <<BnDec("8495653923123431417604973247489272438418190587263600148770280649306958101930"), BnDec("4082367875863433681332203403145435568316851327593401208105741076214120093531")>>
=============================================================================
