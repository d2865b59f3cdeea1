------------------------------- MODULE PoolImpl -------------------------------
(***************************************************************************)
(* The hand-over protocol of the pool, one step per operation of the thread    *)
(* library: every worker has a lock, a slot for a task, a stop flag and two     *)
(* conditions (occupied, finished).  The caller runs the calls of Program,     *)
(* then deletes the pool.  Checked by TLC over all interleavings, with         *)
(* spurious wake-ups: it implements Pool, never stands still before the end,   *)
(* and comes to the end.  With StopLocked = FALSE (the destructor before its    *)
(* repair) TLC finds the lost wake-up.                                        *)
(* sched is the history of the steps' threads: behaviours generated from here  *)
(* are enforced on the real code.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NT,          \* threads, the caller included
          Program,     \* sequence of calls: <<"for", begin, end>> or <<"block">>
          Spurious,    \* how many wake-ups may come for no reason
          StopLocked,  \* the destructor sets the flag under the lock
          Record       \* keep sched
W == 1..(NT - 1)
Caller == 0
None == <<>>
VARIABLES mpc, at, k,                    \* caller: what next, which call, which worker
          wpc, task, stop, lock,         \* workers; lock[w]: who holds it, or -1
          asleepW, asleepM,              \* asleep on occupied / finished (M: 0 or the worker it waits for)
          spur, started, running, sched
vars == <<mpc, at, k, wpc, task, stop, lock, asleepW, asleepM, spur, started, running, sched>>

\* the division of a range: as even as possible, the first parts larger
Parts(n) == IF n <= NT THEN [j \in 1..n |-> 1] ELSE [j \in 1..NT |-> n \div NT + (IF j <= n % NT THEN 1 ELSE 0)]
RECURSIVE Sum(_, _)
Sum(s, j) == IF j = 0 THEN 0 ELSE s[j] + Sum(s, j - 1)
Pieces(c) == IF c[1] = "block" THEN [j \in 1..NT |-> <<j - 1, j, j - 1>>]
             ELSE LET ps == Parts(c[3] - c[2]) IN [j \in 1..Len(ps) |-> <<c[2] + Sum(ps, j - 1), c[2] + Sum(ps, j), j - 1>>]
Now == Program[at]
Empty(c) == c[1] = "for" /\ c[3] <= c[2]

Init == /\ mpc = "create" /\ at = 1 /\ k = 1
        /\ wpc = [w \in W |-> "unborn"] /\ task = [w \in W |-> None] /\ stop = [w \in W |-> FALSE] /\ lock = [w \in W |-> -1]
        /\ asleepW = {} /\ asleepM = 0 /\ spur = Spurious /\ started = {} /\ running = {} /\ sched = <<>>

Free(w) == lock[w] = -1
By(t) == sched' = IF Record THEN Append(sched, t) ELSE sched
WakeW(w) == asleepW' = asleepW \ {w}
WakeM(w) == asleepM' = IF asleepM = w THEN 0 ELSE asleepM

\* ---- a worker
Run(w, pc, next) == wpc[w] = pc /\ wpc' = [wpc EXCEPT ![w] = next] /\ By(w) /\ UNCHANGED <<mpc, at, k>>
WLock(w)  == Run(w, "lock", "test") /\ Free(w) /\ lock' = [lock EXCEPT ![w] = w] /\ UNCHANGED <<task, stop, asleepW, asleepM, spur, started, running>>
WTest(w)  == \/ (task[w] # None \/ stop[w]) /\ Run(w, "test", "go") /\ UNCHANGED <<lock, task, stop, asleepW, asleepM, spur, started, running>>
             \/ task[w] = None /\ ~stop[w] /\ Run(w, "test", "doze") /\ UNCHANGED <<lock, task, stop, asleepW, asleepM, spur, started, running>>
\* the wait: gives the lock back and sleeps in one step
WDoze(w)  == Run(w, "doze", "asleep") /\ lock' = [lock EXCEPT ![w] = -1] /\ asleepW' = asleepW \cup {w} /\ UNCHANGED <<task, stop, asleepM, spur, started, running>>
WWake(w)  == w \notin asleepW /\ Free(w) /\ Run(w, "asleep", "test") /\ lock' = [lock EXCEPT ![w] = w] /\ UNCHANGED <<task, stop, asleepW, asleepM, spur, started, running>>
WStop(w)  == Run(w, "go", "done") /\ stop[w] /\ lock' = [lock EXCEPT ![w] = -1] /\ UNCHANGED <<task, stop, asleepW, asleepM, spur, started, running>>
WStart(w) == Run(w, "go", "busy") /\ ~stop[w] /\ started' = started \cup {task[w]} /\ running' = running \cup {task[w]} /\ UNCHANGED <<lock, task, stop, asleepW, asleepM, spur>>
WEnd(w)   == Run(w, "busy", "give") /\ running' = running \ {task[w]} /\ task' = [task EXCEPT ![w] = None] /\ UNCHANGED <<lock, stop, asleepW, asleepM, spur, started>>
WGive(w)  == Run(w, "give", "tell") /\ lock' = [lock EXCEPT ![w] = -1] /\ UNCHANGED <<task, stop, asleepW, asleepM, spur, started, running>>
WTell(w)  == Run(w, "tell", "lock") /\ WakeM(w) /\ UNCHANGED <<lock, task, stop, asleepW, spur, started, running>>
Worker(w) == WLock(w) \/ WTest(w) \/ WDoze(w) \/ WWake(w) \/ WStop(w) \/ WStart(w) \/ WEnd(w) \/ WGive(w) \/ WTell(w)

\* ---- the caller
Go(pc, next) == mpc = pc /\ mpc' = next /\ By(Caller)
Create == /\ Go("create", IF k < NT - 1 THEN "create" ELSE "call")
          /\ IF NT > 1 THEN wpc' = [wpc EXCEPT ![k] = "lock"] /\ k' = IF k < NT - 1 THEN k + 1 ELSE 1 ELSE UNCHANGED <<wpc, k>>
          /\ UNCHANGED <<at, task, stop, lock, asleepW, asleepM, spur, started, running>>
\* pieces 1..n-1 go to workers, the last is the caller's own
NP == Len(Pieces(Now))
CallNext == /\ at <= Len(Program)
            /\ IF Empty(Now) THEN Go("call", "call") /\ at' = at + 1 /\ UNCHANGED <<k, started>>
               ELSE Go("call", IF NP > 1 THEN "slock" ELSE "own") /\ k' = 1 /\ started' = {} /\ UNCHANGED at
            /\ UNCHANGED <<wpc, task, stop, lock, asleepW, asleepM, spur, running>>
SLock == Go("slock", "sset") /\ Free(k) /\ lock' = [lock EXCEPT ![k] = Caller] /\ UNCHANGED <<at, k, wpc, task, stop, asleepW, asleepM, spur, started, running>>
SSet  == Go("sset", "stell") /\ task' = [task EXCEPT ![k] = Pieces(Now)[k]] /\ lock' = [lock EXCEPT ![k] = -1] /\ UNCHANGED <<at, k, wpc, stop, asleepW, asleepM, spur, started, running>>
STell == Go("stell", IF k + 1 < NP THEN "slock" ELSE "own") /\ WakeW(k) /\ k' = k + 1 /\ UNCHANGED <<at, wpc, task, stop, lock, asleepM, spur, started, running>>
Own   == LET p == Pieces(Now)[NP] IN Go("own", "ownend") /\ started' = started \cup {p} /\ running' = running \cup {p} /\ UNCHANGED <<at, k, wpc, task, stop, lock, asleepW, asleepM, spur>>
OwnEnd == LET p == Pieces(Now)[NP] IN Go("ownend", IF NP > 1 THEN "wlock" ELSE "ret") /\ running' = running \ {p} /\ k' = 1 /\ UNCHANGED <<at, wpc, task, stop, lock, asleepW, asleepM, spur, started>>
MLock == Go("wlock", "wtest") /\ Free(k) /\ lock' = [lock EXCEPT ![k] = Caller] /\ UNCHANGED <<at, k, wpc, task, stop, asleepW, asleepM, spur, started, running>>
MTest == \/ Go("wtest", IF k + 1 < NP THEN "wlock" ELSE "ret") /\ task[k] = None /\ lock' = [lock EXCEPT ![k] = -1] /\ k' = k + 1 /\ UNCHANGED asleepM
            /\ UNCHANGED <<at, wpc, task, stop, asleepW, spur, started, running>>
         \/ Go("wtest", "wsleep") /\ task[k] # None /\ lock' = [lock EXCEPT ![k] = -1] /\ asleepM' = k /\ UNCHANGED k
            /\ UNCHANGED <<at, wpc, task, stop, asleepW, spur, started, running>>
MWake == Go("wsleep", "wtest") /\ asleepM = 0 /\ Free(k) /\ lock' = [lock EXCEPT ![k] = Caller] /\ UNCHANGED <<at, k, wpc, task, stop, asleepW, asleepM, spur, started, running>>
Ret   == Go("ret", "call") /\ at' = at + 1 /\ started' = {} /\ UNCHANGED <<k, wpc, task, stop, lock, asleepW, asleepM, spur, running>>
\* deletion, one worker after the other
Del   == at > Len(Program) /\ Go("call", IF NT > 1 THEN "dlock" ELSE "gone") /\ k' = 1 /\ UNCHANGED <<at, wpc, task, stop, lock, asleepW, asleepM, spur, started, running>>
DLock == Go("dlock", "dset") /\ (StopLocked => Free(k)) /\ lock' = (IF StopLocked THEN [lock EXCEPT ![k] = Caller] ELSE lock) /\ UNCHANGED <<at, k, wpc, task, stop, asleepW, asleepM, spur, started, running>>
DSet  == Go("dset", "dtell") /\ stop' = [stop EXCEPT ![k] = TRUE] /\ lock' = (IF StopLocked THEN [lock EXCEPT ![k] = -1] ELSE lock) /\ UNCHANGED <<at, k, wpc, task, asleepW, asleepM, spur, started, running>>
DTell == Go("dtell", "join") /\ WakeW(k) /\ UNCHANGED <<at, k, wpc, task, stop, lock, asleepM, spur, started, running>>
Join  == Go("join", IF k < NT - 1 THEN "dlock" ELSE "gone") /\ wpc[k] = "done" /\ k' = k + 1 /\ UNCHANGED <<at, wpc, task, stop, lock, asleepW, asleepM, spur, started, running>>
Main == Create \/ CallNext \/ SLock \/ SSet \/ STell \/ Own \/ OwnEnd \/ MLock \/ MTest \/ MWake \/ Ret \/ Del \/ DLock \/ DSet \/ DTell \/ Join

\* a sleeper wakes for no reason
Wake == /\ spur > 0 /\ spur' = spur - 1
        /\ \/ \E w \in asleepW : WakeW(w) /\ UNCHANGED asleepM
           \/ asleepM # 0 /\ asleepM' = 0 /\ UNCHANGED asleepW
        /\ UNCHANGED <<mpc, at, k, wpc, task, stop, lock, started, running, sched>>
Ended == mpc = "gone"
Stay == ~Record /\ Ended /\ UNCHANGED vars
Next == Main \/ (\E w \in W : Worker(w)) \/ Wake \/ Stay
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ \A w \in W : WF_vars(Worker(w))

\* ---- what it implements
InCall == mpc \in {"slock", "sset", "stell", "own", "ownend", "wlock", "wtest", "wsleep", "ret"}
AbsNt == IF mpc \in {"create", "gone"} THEN 0 ELSE NT
AbsCall == IF ~InCall THEN <<>> ELSE IF Now[1] = "block" THEN <<0, NT>> ELSE <<Now[2], Now[3]>>
Abs == INSTANCE Pool WITH nt <- AbsNt, call <- AbsCall, started <- (IF InCall THEN started ELSE {}), running <- running
Implements == Abs!Init0 /\ [][\/ \E n \in 1..NT : Abs!New(n)
                              \/ \E c \in 1..Len(Program) : LET q == Program[c] IN IF q[1] = "block" THEN Abs!Call(0, NT) ELSE Abs!Call(q[2], q[3])
                              \/ \E p \in started' : Abs!Start(p)
                              \/ \E p \in running : Abs!End(p)
                              \/ Abs!Return \/ Abs!Delete]_(Abs!pvars)
Terminates == <>Ended
\* only the holder of the lock touches the slot; a worker is never given a second task
OneHolder == \A w \in W : (wpc[w] \in {"test", "doze", "go", "busy", "give"} => lock[w] = w) /\ (mpc \in {"sset", "wtest"} => lock[k] = Caller)
NotOverwritten == mpc = "sset" => task[k] = None
\* for generating schedules
Behaviour == Ended => PrintT(<<"SCHED", sched>>)
=============================================================================
