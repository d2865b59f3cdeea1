------------------------------- MODULE PoolTrace -------------------------------
(***************************************************************************)
(* Runs of programs over the real pool under the cooperative scheduler; every *)
(* recorded event must be a step of Pool.tla, and every run must reach its     *)
(* exit (a run that cannot go on leaves the event "stuck").                   *)
(***************************************************************************)
EXTENDS Pool, Sequences, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i,
          blk        \* the call in progress is a block
vars == <<i, blk, pvars>>
Runs == {n \in 1..Len(Trace) : Trace[n].k = "run"}
Init == i \in Runs /\ blk = FALSE /\ Init0
If(c, name) == IF c THEN {} ELSE {name}
RECURSIVE Takes(_, _, _)
Takes(s, n, left) == IF n = 0 THEN left = 0 ELSE 0 <= s[n] /\ s[n] <= left /\ Takes(s, n - 1, left - s[n])
\* a division of the work: at most one part per thread, none negative, all of it
DivOK(e) == Len(e.v) <= e.nt /\ Takes(e.v, Len(e.v), e.n)
\* 2^v <= n < 2^(v+1), without computing 2^32
LogOK(e) == IF e.n < 1 THEN TRUE ELSE e.v \in 0..30 /\ 2 ^ e.v <= e.n /\ e.n \div 2 ^ e.v < 2
\* a block call is the range of the worker ids, each a piece of its own
PieceOf(e) == IF blk THEN <<e.b, IF e.b \in 0..nt THEN e.b + 1 ELSE e.b, e.w>> ELSE <<e.b, e.e, e.w>>
Fails(e) ==
    CASE e.k = "new" -> If(nt = 0 /\ e.nt = e.want, "value")
      [] e.k = "for" -> If(nt > 0 /\ call = NoCall, "plan")
      [] e.k = "block" -> If(nt > 0 /\ call = NoCall, "plan")
      [] e.k = "start" -> If(call # NoCall /\ MayStart(PieceOf(e)) /\ (blk => e.w = e.b /\ e.e = nt), "piece")
      [] e.k = "end" -> If(PieceOf(e) \in running, "piece")
      [] e.k = "ret" -> If(call # NoCall /\ running = {}, "early") \cup If(call # NoCall => Covered, "left")
      [] e.k = "del" -> If(nt > 0 /\ call = NoCall, "plan")
      [] e.k = "gone" -> If(running = {}, "early")
      [] e.k = "exit" -> If(call = NoCall /\ running = {}, "early")
      [] e.k = "div" -> If(DivOK(e), "value")
      [] e.k = "log2" -> If(LogOK(e), "value")
      [] OTHER -> {e.k}
\* the state goes on as the events say
After(e) ==
    LET p == IF e.k \in {"start", "end"} THEN PieceOf(e) ELSE <<>> IN
    /\ blk' = CASE e.k = "block" -> TRUE [] e.k = "for" -> FALSE [] OTHER -> blk
    /\ nt' = CASE e.k = "new" -> e.want [] e.k = "gone" -> 0 [] OTHER -> nt
    /\ call' = CASE e.k = "for" -> <<e.b, e.e>> [] e.k = "block" -> <<0, nt>> [] e.k = "ret" -> NoCall [] OTHER -> call
    /\ started' = CASE e.k \in {"for", "block", "ret"} -> {} [] e.k = "start" -> started \cup {p} [] OTHER -> started
    /\ running' = CASE e.k = "start" -> running \cup {p} [] e.k = "end" -> running \ {p} [] OTHER -> running
IsLast(n) == n = Len(Trace) \/ Trace[n + 1].k = "run"
Next == /\ i < Len(Trace)
        /\ Trace[i + 1].k # "run"
        /\ LET e == Trace[i + 1]
               f == Fails(e) \cup If(IsLast(i + 1) => e.k = "exit", "cut") IN
             /\ IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i + 1, f>>)
             /\ After(e)
        /\ i' = i + 1
====================================================================
