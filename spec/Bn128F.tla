-------------------------------- MODULE Bn128F --------------------------------
(***************************************************************************)
(* The fields of the bn128 engine as seen from outside: constants of every   *)
(* level and the defining relations u^2 = -1, t^3 = 9 + u, w^2 = t.          *)
(***************************************************************************)
EXTENDS Bn128, BigNum, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
Init == i = 0
z2 == <<"0", "0">>
o2 == <<"1", "0">>
z6 == <<z2, z2, z2>>
o6 == <<z2, z2, o2>>
Dec(x) == BFormat(x, 10)
Prime(f) == IF f = "fr" THEN BnR ELSE BnQ
OK(e) == CASE e.k = "prime" -> /\ e.zero = "0" /\ e.one = "1" /\ e.neg1 = BSub(Prime(e.f), "1") /\ e.dec = Dec(e.neg1)
                               /\ e.bits = BBits(Prime(e.f)) /\ e.bytes = (BBits(Prime(e.f)) + 7) \div 8
           [] e.k = "f2"  -> e.zero = z2 /\ e.one = o2 /\ e.neg1 = <<BSub(BnQ, "1"), "0">> /\ e.rel = <<BSub(BnQ, "1"), "0">>
           [] e.k = "f6"  -> e.zero = z6 /\ e.one = o6 /\ e.rel = <<z2, z2, BnXi>> /\ e.xi = BnXi
           [] e.k = "f12" -> e.zero = <<z6, z6>> /\ e.one = <<z6, o6>> /\ e.rel = <<z6, <<z2, o2, z2>>>>
Fails(e) == IF e.k = "crash" THEN {"crash"} ELSE IF OK(e) THEN {} ELSE {"value"}
Next == /\ i < Len(Trace)
        /\ LET f == Fails(Trace[i + 1]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i + 1, f>>)
        /\ i' = i + 1
=============================================================================
