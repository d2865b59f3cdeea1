------------------------------- MODULE GenTrace -------------------------------
(***************************************************************************)
(* Answers of the real generator, files its command wrote, and what became  *)
(* of the generated sources in the assembler and the compiler.              *)
(* Obligations:  complete  every part is there and mentions the field       *)
(*               same      a part is what it was for that prime before       *)
(*               files     the command wrote the files it was asked for,     *)
(*                         each with the parts that belong there             *)
(*               error     the request was answered                          *)
(*               builds    the sources are accepted                          *)
(*               linkable  everything the headers declare, and everything    *)
(*                         the field's objects ask for, is defined, once     *)
(***************************************************************************)
EXTENDS GenFiles, FiniteSets, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, known        \* line consumed last; prime -> part -> digest of its text
tvars == <<i, known>>
If(c, name) == IF c THEN {} ELSE {name}
Range(s) == {s[k] : k \in DOMAIN s}
Known(q, p) == q \in DOMAIN known /\ p \in DOMAIN known[q]
GenFails(e) == If(\A p \in PartSet : p \in DOMAIN e.t /\ e.t[p] # "", "complete")
               \cup If(\A p \in PartSet : p \in DOMAIN e.t /\ e.t[p] # "" /\ Known(e.q, p) => e.t[p] = known[e.q][p], "same")
\* files: name -> digest of its text; the part last put into a file of two parts is not judged (no two options name one file here)
CliFails(e) == LET want == FilesOf(e.l, e.o) IN
               If(DOMAIN e.f = DOMAIN want /\ \A f \in DOMAIN want \cap DOMAIN e.f : \E p \in want[f] : Known(e.q, p) /\ e.f[f] = known[e.q][p], "files")
Fails(e) == CASE e.k = "gen" -> GenFails(e)
              [] e.k = "cli" -> CliFails(e)
              [] e.k = "build" -> If(e.ok, "builds")
              [] e.k = "link" -> If(Range(e.declared) \cup Range(e.needed) \subseteq Range(e.defined) /\ Cardinality(Range(e.defined)) = Len(e.defined) /\ e.declared # <<>>, "linkable")
              [] OTHER -> {"error"}
TInit == i = 0 /\ known = <<>>
TNext == /\ i < Len(Trace)
         /\ LET e == Trace[i + 1]
                f == Fails(e) IN
            /\ IF f = {} THEN TRUE ELSE PrintT(<<"REJECT", i + 1, f>>)
            /\ known' = IF e.k = "gen" /\ e.q \notin DOMAIN known THEN (e.q :> e.t) @@ known ELSE known
         /\ i' = i + 1
TypeOK == i \in 0..Len(Trace)
=============================================================================
