---------------------------------- MODULE Pool ----------------------------------
(***************************************************************************)
(* What a pool of threads promises its caller.  A call covers a range of      *)
(* indices (a loop) or one index for every worker (a block); it is carried    *)
(* out in pieces, each run once by some thread under a worker id that no       *)
(* other piece of the call has; the call returns when all of it has been run   *)
(* and no piece is still running; a pool that is idle can be deleted.          *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
VARIABLES nt,        \* threads of the pool, 0: there is none
          call,      \* the call in progress: <<>>, or <<begin, end>>
          started,   \* pieces of it that have started: <<begin, end, worker id>>
          running    \* those of them that have not ended
pvars == <<nt, call, started, running>>
NoCall == <<>>
Init0 == nt = 0 /\ call = NoCall /\ started = {} /\ running = {}
New(n) == nt = 0 /\ n > 0 /\ nt' = n /\ UNCHANGED <<call, started, running>>
Call(b, e) == nt > 0 /\ call = NoCall /\ call' = <<b, e>> /\ started' = {} /\ running' = {} /\ UNCHANGED nt
MayStart(p) == /\ call # NoCall
               /\ call[1] <= p[1] /\ p[1] <= p[2] /\ p[2] <= call[2]
               /\ p[3] \in 0..(nt - 1)
               /\ \A q \in started : (p[2] <= q[1] \/ q[2] <= p[1] \/ p[1] = p[2] \/ q[1] = q[2]) /\ p[3] # q[3]
Start(p) == MayStart(p) /\ started' = started \cup {p} /\ running' = running \cup {p} /\ UNCHANGED <<nt, call>>
End(p) == p \in running /\ running' = running \ {p} /\ UNCHANGED <<nt, call, started>>
\* pieces are disjoint and within the range: nothing is left out when one begins it and each goes on to the next or to its end
Covered == LET S == {p \in started : p[1] < p[2]} IN
           call[1] < call[2] => /\ \E p \in S : p[1] = call[1]
                                /\ \A p \in S : p[2] = call[2] \/ \E q \in S : q[1] = p[2]
Return == call # NoCall /\ running = {} /\ Covered /\ call' = NoCall /\ started' = {} /\ UNCHANGED <<nt, running>>
Delete == nt > 0 /\ call = NoCall /\ nt' = 0 /\ UNCHANGED <<call, started, running>>
=============================================================================
