------------------------------- MODULE GenPlan -------------------------------
(* Every history of up to MaxLen requests over given primes and names, made in turn or at once, and every set of output options. *)
EXTENDS GenFiles, Json, IOUtils, SequencesExt
CONSTANTS Primes, Names, MaxLen
VARIABLE done
All == [q : Primes, n : Names]
Histories == [m : {"seq", "par"}, r : UNION {[1..n -> All] : n \in 1..MaxLen}]
Opts == UNION {[D -> {"x"}] : D \in SUBSET {"oa", "oc", "oh"}}
PInit == done = FALSE
PNext == /\ ~done /\ done' = TRUE
         /\ ndJsonSerialize(IOEnv.PLAN, SetToSeq(Histories))
         /\ ndJsonSerialize(IOEnv.PLAN2, SetToSeq({[o |-> DOMAIN o, long |-> l] : o \in Opts, l \in BOOLEAN}))
=============================================================================
