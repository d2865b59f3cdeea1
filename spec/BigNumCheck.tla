---------------------------- MODULE BigNumCheck ----------------------------
(* TLC evaluates these assumptions: every BigNum operator agrees with its    *)
(* plain TLA+ definition on small numbers, so that the rest of the           *)
(* specification rests on stated meanings and not on the Java text alone.    *)
EXTENDS Integers, Sequences, BigNum, TLC

CONSTANT N   \* numbers -N..N are compared

S == -N..N
P == 0..N
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
BitOf(x, k) == (x \div Pow(2, k)) % 2
RECURSIVE Bits(_)
Bits(x) == IF x = 0 THEN 0 ELSE 1 + Bits(x \div 2)
RECURSIVE Combine(_, _, _, _)
Combine(f(_, _), x, y, k) == IF k = 0 THEN 0 ELSE f(x % 2, y % 2) + 2 * Combine(f, x \div 2, y \div 2, k - 1)
AndB(a, b) == IF a = 1 /\ b = 1 THEN 1 ELSE 0
OrB(a, b)  == IF a = 1 \/ b = 1 THEN 1 ELSE 0
XorB(a, b) == IF a # b THEN 1 ELSE 0

ASSUME RoundTrip == \A x \in S : BToInt(BInt(x)) = x
ASSUME Injective == \A x, y \in S : (BInt(x) = BInt(y)) <=> (x = y)
ASSUME Ring == \A x, y \in S :
         /\ BAdd(BInt(x), BInt(y)) = BInt(x + y)
         /\ BSub(BInt(x), BInt(y)) = BInt(x - y)
         /\ BMul(BInt(x), BInt(y)) = BInt(x * y)
ASSUME Order == \A x, y \in S : BLt(BInt(x), BInt(y)) = (x < y) /\ BLe(BInt(x), BInt(y)) = (x <= y)
ASSUME DivMod == \A x \in S, y \in P \ {0} :
         BDiv(BInt(x), BInt(y)) = BInt(x \div y) /\ BMod(BInt(x), BInt(y)) = BInt(x % y)
ASSUME Bitwise == \A x, y \in P :
         /\ BAnd(BInt(x), BInt(y)) = BInt(Combine(AndB, x, y, 10))
         /\ BOr(BInt(x), BInt(y))  = BInt(Combine(OrB, x, y, 10))
         /\ BXor(BInt(x), BInt(y)) = BInt(Combine(XorB, x, y, 10))
ASSUME Shift == \A x \in S, k \in 0..8 : BShl(BInt(x), k) = BInt(x * Pow(2, k)) /\ BShr(BInt(x), k) = BInt(x \div Pow(2, k))
ASSUME BitLen == \A x \in P : BBits(BInt(x)) = Bits(x) /\ \A k \in 0..9 : BBit(BInt(x), k) = BitOf(x, k)
ASSUME PowInv == \A m \in {5, 7, 11, 13} : \A x \in P :
         /\ \A e \in 0..6 : BPowMod(BInt(x), BInt(e), BInt(m)) = BInt(Pow(x % m, e) % m)
         /\ x % m # 0 => BMod(BMul(BInvMod(BInt(x), BInt(m)), BInt(x)), BInt(m)) = "1"
ASSUME Text == \A x \in S : BParse(ToString(x), 10) = BInt(x) /\ BFormat(BInt(x), 10) = ToString(x)
ASSUME Radix == BParse("ff", 16) = BInt(255) /\ BParse("-101", 2) = BInt(-5) /\ BFormat(BInt(35), 36) = "z"
ASSUME Bytes == BBytesLE("0100") = BInt(1) /\ BBytesLE("0001") = BInt(256) /\ BBytesLE("") = "0" /\ BBytesLE("fe01ff") = BInt(254 + 256 + 255 * 65536)
\* carries beyond 32 and 64 bits, by algebraic identities
ASSUME Wide == LET a == BShl("1", 64) b == BSub(a, "1") IN
         /\ BMul(b, b) = BAdd(BSub(BShl("1", 128), BShl("1", 65)), "1")
         /\ BMod(BMul(b, b), a) = "1"
         /\ BDiv(BMul(a, b), b) = a
         /\ BPowMod("2", BShl("1", 64), b) = "1"
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
