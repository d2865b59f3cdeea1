------------------------------- MODULE RaceTrace -------------------------------
(***************************************************************************)
(* Runs of the parallel algorithms.  A run is a sequence of what its threads  *)
(* did between synchronisations: segments (locations read, locations          *)
(* written), acquisitions and releases of objects (locks, conditions, thread   *)
(* starts and ends, barriers).  What happens before what follows from the       *)
(* releases and acquisitions (clocks); two segments of different threads that    *)
(* are not ordered may only share locations that both of them read.            *)
(* All runs of one problem - any schedule, any number of threads - end with     *)
(* the same result.                                                          *)
(* Location sets are numbers, one bit for each location.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, IOUtils, TLC
LOCAL INSTANCE BigNum
CONSTANTS MaxT, MaxO
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i,
          want,      \* the result of the first run of the problem, <<>> before
          done,      \* the run has given its result
          vc,        \* vc[t][u]: what thread t knows of thread u
          oc,        \* oc[o][u]: what was known at the releases of object o
          segs       \* segs[t]: <<clock of t, read, written>>
vars == <<i, want, done, vc, oc, segs>>
T == 0..(MaxT - 1)
Start == [t \in T |-> [u \in T |-> IF u = t THEN 1 ELSE 0]]
Init == /\ i \in {n \in 1..Len(Trace) : Trace[n].k = "prog"}
        /\ want = <<>> /\ done = TRUE /\ vc = Start /\ oc = [o \in 1..MaxO |-> [u \in T |-> 0]] /\ segs = [t \in T |-> <<>>]
Max(x, y) == IF x > y THEN x ELSE y
Join(x, y) == [u \in T |-> Max(x[u], y[u])]
Apart(x, y) == BAnd(x, y) = "0"
\* a location one of them writes and the other one touches
Clash(s, e) == ~(/\ (e.nw = 1 \/ (Apart(e.w, s[3]) /\ Apart(e.w, s[2])))
                 /\ (e.nr = 1 \/ Apart(e.r, s[3])))
Unordered(t) == {<<u, k>> \in UNION {{<<u, k>> : k \in 1..Len(segs[u])} : u \in T \ {t}} : segs[u][k][1] > vc[t][u]}
Racy(e) == \E x \in Unordered(e.t) : Clash(segs[x[1]][x[2]], e)
Fails(e) ==
    CASE e.k = "seg" -> IF Racy(e) THEN {"race"} ELSE {}
      [] e.k \in {"acq", "rel", "vary"} -> {}
      [] e.k = "run" -> IF done THEN {} ELSE {"cut"}
      [] e.k = "res" -> IF want = <<>> \/ want = <<e.v>> THEN {} ELSE {"result"}
      [] OTHER -> {e.k}
Grow(s, e, c) == IF s # <<>> /\ s[Len(s)][1] = c THEN [s EXCEPT ![Len(s)] = <<c, BOr(@[2], e.r), BOr(@[3], e.w)>>] ELSE Append(s, <<c, e.r, e.w>>)
After(e) ==
    CASE e.k = "run" -> /\ done' = FALSE /\ vc' = Start /\ oc' = [o \in 1..MaxO |-> [u \in T |-> 0]] /\ segs' = [t \in T |-> <<>>] /\ UNCHANGED want
      [] e.k = "res" -> /\ done' = TRUE /\ want' = (IF want = <<>> THEN <<e.v>> ELSE want) /\ UNCHANGED <<vc, oc, segs>>
      [] e.k = "seg" -> segs' = [segs EXCEPT ![e.t] = Grow(@, e, vc[e.t][e.t])] /\ UNCHANGED <<want, done, vc, oc>>
      [] e.k = "acq" -> vc' = [vc EXCEPT ![e.t] = Join(@, oc[e.o])] /\ UNCHANGED <<want, done, oc, segs>>
      [] e.k = "rel" -> /\ oc' = [oc EXCEPT ![e.o] = Join(@, vc[e.t])]
                        /\ vc' = [vc EXCEPT ![e.t][e.t] = @ + 1]
                        /\ UNCHANGED <<want, done, segs>>
      [] OTHER -> UNCHANGED <<want, done, vc, oc, segs>>
IsLast(n) == n = Len(Trace) \/ Trace[n + 1].k = "prog"
Next == /\ i < Len(Trace)
        /\ Trace[i + 1].k # "prog"
        /\ LET e == Trace[i + 1]
               f == Fails(e) IN
             /\ IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i + 1, f>>)
             /\ After(e)
             /\ IF IsLast(i + 1) /\ ~done' THEN PrintT(<<"REJECT", i + 1, {"cut"}>>) ELSE TRUE
        /\ i' = i + 1
\* a thread knows at most what the other ones have done
Known == \A t, u \in T : vc[t][u] <= vc[u][u]
=============================================================================
