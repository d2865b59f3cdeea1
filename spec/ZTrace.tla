-------------------------------- MODULE ZTrace --------------------------------
(***************************************************************************)
(* Signed-digit recoding, and scalar multiplication and multi-scalar        *)
(* multiplication in the group of integers modulo M = 2^61 - 1, where the    *)
(* sum of products is a number and can be told exactly for thousands of     *)
(* terms.  Events are independent of each other.                            *)
(***************************************************************************)
EXTENDS BigNum, Integers, Sequences, FiniteSets, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 0
M == "1fffffffffffffff"
Scalar(h) == BBytesLE(h)

\* p and m have a bit for every digit 1 and -1: their difference is the number, no two digits in a row are non-zero
NafOK(e) == LET nz == BOr(e.p, e.m) IN
    /\ e.bad = 0
    /\ BSub(e.p, e.m) = Scalar(e.s)
    /\ BAnd(e.p, e.m) = "0" /\ BAnd(nz, BShl(nz, 1)) = "0"
MulOK(e) == e.v = BMod(BMul(Scalar(e.s), e.b), M)

RECURSIVE SumOf(_, _, _)
\* halves, to keep the recursion shallow
SumOf(e, a, b) == IF a > b THEN "0"
    ELSE IF a = b THEN (IF e.k = "sec" /\ (a - 1) \div Len(e.x) >= e.x[((a - 1) % Len(e.x)) + 1] THEN "0" ELSE BMul(Scalar(e.sc[a]), e.bs[a]))
    ELSE LET h == (a + b) \div 2 IN BAdd(SumOf(e, a, h), SumOf(e, h + 1, b))
SumOK(e) == e.v = BMod(SumOf(e, 1, e.n), M)

Value(e) == CASE e.k = "naf" -> NafOK(e) [] e.k = "nm" -> MulOK(e) [] e.k \in {"msm", "mex", "sec"} -> SumOK(e)
If(c, name) == IF c THEN {} ELSE {name}
Fails(e) == CASE e.k = "crash" -> {"crash"}
              [] OTHER -> If(e.sig = 0, "crash") \cup If(e.cl = 0, "intact") \cup (IF e.sig = 0 THEN If(Value(e), "value") ELSE {})
Next == /\ i < Len(Trace)
        /\ LET f == Fails(Trace[i + 1]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i + 1, f>>)
        /\ i' = i + 1
=============================================================================
