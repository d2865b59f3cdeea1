-------------------------------- MODULE Bn128G --------------------------------
(* A group of the bn128 engine: its constants and multiples of its generator, as recorded from the code. *)
EXTENDS CurveTrace, BigField, Bn128
ASSUME On(Gen) /\ Gen # Inf /\ Mul(Order, Gen) = Inf       \* the generator has prime order
=============================================================================
