------------------------------- MODULE CurvePlan -------------------------------
(***************************************************************************)
(* The operands a Curve is exercised on, as points of the specification in   *)
(* the stored forms of the code, and (for small fields, where all points are *)
(* known) the sanity of the specification itself: its addition is an abelian *)
(* group law.                                                              *)
(***************************************************************************)
EXTENDS EC, BigNum, Json, IOUtils, FiniteSets, SequencesExt, TLC
CONSTANTS Elements,      \* all field elements (small fields), or {}
          GenX, GenY, Mults,   \* otherwise: the generator and the multiples of it to use
          Scales,        \* scales of extended forms
          ZeroXY         \* x and y values of stored infinities
Points == IF Elements = {} THEN {Mul(k, <<GenX, GenY>>) : k \in Mults}
          ELSE {Inf} \cup {p \in Elements \X Elements : On(p)}
Full == Elements # {}
ASSUME Full => \A p, q \in Points : Add(p, q) \in Points /\ Add(p, q) = Add(q, p)
ASSUME Full => \A p \in Points : Add(p, Inf) = p /\ Add(p, Neg(p)) = Inf
ASSUME Full /\ Cardinality(Points) < 20 => \A p, q, r \in Points : Add(Add(p, q), r) = Add(p, Add(q, r))
ASSUME ~Full => \A p \in Points : On(p)
ASSUME (FZero \in ZeroXY) => ~On(<<FZero, FZero>>)        \* (0, 0) is free to stand for infinity

Aff == {IF p = Inf THEN <<FZero, FZero>> ELSE p : p \in Points}
Extd == {Ext(p, l) : p \in Points \ {Inf}, l \in Scales} \cup {<<x, y, FZero, FZero>> : x, y \in ZeroXY}
\* the stored forms mean what they should
ASSUME \A p \in Points : (IF p = Inf THEN OfAff(<<FZero, FZero>>) ELSE OfAff(p)) = p
ASSUME \A p \in Points \ {Inf}, l \in Scales : OfExt(Ext(p, l)) = p /\ ExtOK(Ext(p, l)) /\ Stores(Ext(p, l), p)
ASSUME Full => \A p \in Points : Mul(BInt(Cardinality(Points)), p) = Inf
ASSUME JsonSerialize(IOEnv.OUT, [aff |-> SetToSeq(Aff), ext |-> SetToSeq(Extd), n |-> Cardinality(Points)])
VARIABLE done
Init == done = FALSE
Next == done' = TRUE /\ done = FALSE
=============================================================================
