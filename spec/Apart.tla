--------------------------------- MODULE Apart ---------------------------------
(***************************************************************************)
(* Threads that call the library on objects of their own.  A call reads its     *)
(* arguments and the constants of the field or curve, leaves intermediate       *)
(* values in temporaries and writes its result.  Steps of different threads     *)
(* interleave in any way.  The result of every call is that of the same call     *)
(* made alone, provided that temporaries belong to the call and that constants  *)
(* are set up before anybody uses them: either from the start or by a guard that *)
(* lets one thread set them up while the others wait.                          *)
(*   Temp  = "own" or "shared" (a static temporary)                            *)
(*   Setup = "start", "guarded", "flag" (the flag is set before the values),    *)
(*           "late" (the flag is set after the values: repeated, but harmless   *)
(*           only because what is written is the same)                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS Threads, Args, Calls, Temp, Setup
VARIABLES pc, arg, obj, tmp, const, flag, lock, left, done
vars == <<pc, arg, obj, tmp, const, flag, lock, left, done>>
C == 5                                             \* the constant once it is set up
F(a, c) == a * a + c                               \* what a call computes, in two steps
Slot(t) == IF Temp = "own" THEN t ELSE 0
Init == /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> 0] /\ obj = [t \in Threads |-> 0]
        /\ tmp = [s \in Threads \cup {0} |-> 0]
        /\ const = (IF Setup = "start" THEN C ELSE 0) /\ flag = (Setup = "start") /\ lock = 0
        /\ left = [t \in Threads |-> Calls] /\ done = [t \in Threads |-> <<>>]
Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0 /\ \E a \in Args : arg' = [arg EXCEPT ![t] = a]
            /\ left' = [left EXCEPT ![t] = @ - 1] /\ Go(t, "test") /\ UNCHANGED <<obj, tmp, const, flag, lock, done>>
Test(t) == /\ pc[t] = "test" /\ Go(t, IF flag THEN "first" ELSE IF Setup = "guarded" THEN "lock" ELSE "set1") /\ UNCHANGED <<arg, obj, tmp, const, flag, lock, left, done>>
Lock(t) == /\ pc[t] = "lock" /\ lock = 0 /\ lock' = t /\ Go(t, IF flag THEN "unlock" ELSE "set1") /\ UNCHANGED <<arg, obj, tmp, const, flag, left, done>>
Set1(t) == /\ pc[t] = "set1" /\ Go(t, "set2")
           /\ IF Setup = "flag" THEN flag' = TRUE /\ UNCHANGED const ELSE const' = C /\ UNCHANGED flag
           /\ UNCHANGED <<arg, obj, tmp, lock, left, done>>
Set2(t) == /\ pc[t] = "set2" /\ Go(t, IF Setup = "guarded" THEN "unlock" ELSE "first")
           /\ IF Setup = "flag" THEN const' = C /\ UNCHANGED flag ELSE flag' = TRUE /\ UNCHANGED const
           /\ UNCHANGED <<arg, obj, tmp, lock, left, done>>
Unlock(t) == /\ pc[t] = "unlock" /\ lock' = 0 /\ Go(t, "first") /\ UNCHANGED <<arg, obj, tmp, const, flag, left, done>>
First(t) == /\ pc[t] = "first" /\ tmp' = [tmp EXCEPT ![Slot(t)] = arg[t] * arg[t]] /\ Go(t, "second") /\ UNCHANGED <<arg, obj, const, flag, lock, left, done>>
Second(t) == /\ pc[t] = "second" /\ obj' = [obj EXCEPT ![t] = tmp[Slot(t)] + const] /\ Go(t, "end") /\ UNCHANGED <<arg, tmp, const, flag, lock, left, done>>
End(t) == /\ pc[t] = "end" /\ done' = [done EXCEPT ![t] = Append(@, <<arg[t], obj[t]>>)] /\ Go(t, "idle") /\ UNCHANGED <<arg, obj, tmp, const, flag, lock, left>>
Next == \E t \in Threads : Begin(t) \/ Test(t) \/ Lock(t) \/ Set1(t) \/ Set2(t) \/ Unlock(t) \/ First(t) \/ Second(t) \/ End(t)
Spec == Init /\ [][Next]_vars
AsAlone == \A t \in Threads : \A k \in DOMAIN done[t] : done[t][k][2] = F(done[t][k][1], C)
=============================================================================
