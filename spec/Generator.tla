------------------------------ MODULE Generator ------------------------------
(***************************************************************************)
(* The field generator as a service: requests (a prime and a name) are made  *)
(* one after the other or at once; each is answered with seven texts, made   *)
(* in steps in between which other requests are served.                      *)
(*                                                                         *)
(* What an answer may depend on is its prime and, by renaming only, its      *)
(* name: never on what was or is being generated otherwise.  The texts are   *)
(* made with fresh labels; a counter of labels kept by each request and      *)
(* restarted with it gives that, one shared between requests does not        *)
(* (Shared = TRUE is the wrong design, told apart by Independent).           *)
(***************************************************************************)
EXTENDS GenFiles, FiniteSets

CONSTANTS Primes, Reqs, Shared,
          Labels                \* number of fresh labels a part of a prime needs
VARIABLES pc,                   \* request -> part being made (0: not begun, Len(Parts)+1: answered)
          left,                 \* request -> labels still to be taken in that part
          ctr,                  \* request -> its counter; ctr[0] is the shared one
          text,                 \* request -> part -> labels taken so far
          prime                 \* request -> its prime
gvars == <<pc, left, ctr, text, prime>>

GInit == /\ pc = [r \in Reqs |-> 0] /\ left = [r \in Reqs |-> 0] /\ ctr = [r \in Reqs \cup {0} |-> 0]
         /\ text = [r \in Reqs |-> [k \in 1..Len(Parts) |-> <<>>]]
         /\ prime \in [Reqs -> Primes]
NextPart(r) == /\ pc[r] <= Len(Parts) /\ left[r] = 0
               /\ pc' = [pc EXCEPT ![r] = @ + 1]
               /\ left' = [left EXCEPT ![r] = IF pc[r] + 1 <= Len(Parts) THEN Labels[prime[r]][pc[r] + 1] ELSE 0]
               /\ UNCHANGED <<ctr, text, prime>>
Label(r) == LET c == IF Shared THEN 0 ELSE r IN
            /\ pc[r] \in 1..Len(Parts) /\ left[r] > 0
            /\ ctr' = [ctr EXCEPT ![c] = @ + 1]
            /\ text' = [text EXCEPT ![r][pc[r]] = Append(@, ctr[c] + 1)]
            /\ left' = [left EXCEPT ![r] = @ - 1]
            /\ UNCHANGED <<pc, prime>>
GNext == \E r \in Reqs : NextPart(r) \/ Label(r)
GSpec == GInit /\ [][GNext]_gvars

Answered(r) == pc[r] = Len(Parts) + 1
Independent == \A r, s \in Reqs : Answered(r) /\ Answered(s) /\ prime[r] = prime[s] => text[r] = text[s]
\* within one text no label is used twice
Fresh == \A r \in Reqs : \A k \in 1..Len(Parts) : \A x, y \in 1..Len(text[r][k]) : x # y => text[r][k][x] # text[r][k][y]
=============================================================================
