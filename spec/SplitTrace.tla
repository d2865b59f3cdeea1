------------------------------- MODULE SplitTrace -------------------------------
(* What the real splitter made of texts. *)
EXTENDS SplitPar, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
If(c, name) == IF c THEN {} ELSE {name}
Fails(e) == CASE e.k # "split" -> {e.k}
              [] e.st \in {"hang", "crash"} -> {e.st}
              [] ~Balanced(e.s) -> {}
              [] e.st # "ok" -> {e.st}
              [] OTHER -> If(e.r = Split(e.s), "value")
Init == i = 0
Next == /\ i < Len(Trace)
        /\ LET f == Fails(Trace[i + 1]) IN IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i + 1, f>>)
        /\ i' = i + 1
=============================================================================
