------------------------------ MODULE TowerProbe ------------------------------
(* The formula for the Q-th power map in TowerTraceBig is that map: checked on elements of each level. *)
EXTENDS TowerTraceBig
Probe6 == <<<<"3", "5">>, <<"7", "b">>, <<"d", "11">>>>
Probe12 == <<Probe6, <<<<"2", "1">>, <<"0", "3">>, <<"5", "8">>>>>>
ASSUME PowL(2, Probe6[1], Q) = Conj2(Probe6[1])
ASSUME PowL(6, Probe6, Q) = Frob6(Probe6)
ASSUME PowL(12, Probe12, Q) = Frob12(Probe12)
\* the products are those of a commutative ring, and the units are the invertible elements, on these probes
ASSUME Mul12(Probe12, Add12(Probe12, One12)) = Add12(Mul12(Probe12, Probe12), Probe12)
ASSUME Mul12(Mul12(Probe12, Frob12(Probe12)), Conj12(Probe12)) = Mul12(Probe12, Mul12(Conj12(Probe12), Frob12(Probe12)))
ASSUME Unit12(Probe12) /\ Unit6(Probe6) /\ ~Unit12(Zero12)
=============================================================================
