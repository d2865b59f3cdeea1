-------------------------------- MODULE Phases --------------------------------
(***************************************************************************)
(* The parallel phases of the algorithms, as the locations each worker reads  *)
(* and writes; TLC goes through every size and number of workers up to a      *)
(* bound and checks that no worker writes what another one touches, and that   *)
(* together they do the whole of the phase.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxPow, MaxNt, MaxPoints, MaxChunks, MaxK
\* the division of a range of n indices from b: worker -> set of indices
Part(n, nt, w) == IF n <= nt THEN (IF w < n THEN 1 ELSE 0) ELSE n \div nt + (IF w < n % nt THEN 1 ELSE 0)
RECURSIVE Before(_, _, _)
Before(n, nt, w) == IF w = 0 THEN 0 ELSE Before(n, nt, w - 1) + Part(n, nt, w - 1)
Mine(b, e, nt, w) == IF e <= b THEN {} ELSE {b + Before(e - b, nt, w) + x : x \in 0..(Part(e - b, nt, w) - 1)}
RECURSIVE Rev(_, _)
Rev(x, d) == IF d = 0 THEN 0 ELSE (x % 2) * 2 ^ (d - 1) + Rev(x \div 2, d - 1)

\* a phase: what worker w of nt reads and writes, and what has to be written
Fp(r, w) == [r |-> r, w |-> w]
Touch(s) == Fp(s, s)
\* the table of roots of 2^d entries
Setup(d, nt, w) == LET n == 2 ^ d inc == n \div nt
                       a == IF w * inc < 2 THEN 2 ELSE w * inc
                       b == IF w = nt - 1 THEN n ELSE (w + 1) * inc
                       mine == {x \in a..(b - 1) : TRUE} IN
    Fp(IF mine = {} THEN {} ELSE mine \cup {1}, mine)
Reverse(d, nt, w) == Touch({x \in UNION {{i, Rev(i, d)} : i \in {j \in Mine(0, 2 ^ d, nt, w) : j > Rev(j, d)}} : TRUE})
Butterfly(d, s, nt, w) == LET m == 2 ^ s h == m \div 2 IN Touch(UNION {{(i \div h) * m + (i % h), (i \div h) * m + (i % h) + h} : i \in Mine(0, 2 ^ d \div 2, nt, w)})
Mirror(d, nt, w) == Touch(UNION {{i, 2 ^ d - i} : i \in Mine(1, 2 ^ d \div 2, nt, w)})
\* digits of the scalars: n points, c windows each
Slice(n, c, nt, w) == Fp({}, {<<"digit", i * c + j>> : i \in Mine(0, n, nt, w), j \in 0..(c - 1)})
\* buckets of each worker, one window after the other
Buckets(n, c, k, nt, w) == LET mine == Mine(0, c, nt, w) bs == IF mine = {} THEN {} ELSE {<<"bucket", w * 2 ^ (k - 1) + b>> : b \in 0..(2 ^ (k - 1) - 1)} IN
    Fp({<<"digit", i * c + j>> : i \in 0..(n - 1), j \in mine} \cup bs, bs \cup {<<"chunk", j>> : j \in mine})
\* multi-exponentiation: accumulators of every thread, folded into those of thread zero, then halved
Spread(n, k, nt, w) == IF Mine(0, n, nt, w) = {} THEN Touch({}) ELSE Touch({<<"acc", w * 2 ^ k + b>> : b \in 1..(2 ^ k - 1)})
Fold(k, nt, w) == Touch({<<"acc", j * 2 ^ k + b>> : j \in 0..(nt - 1), b \in Mine(0, 2 ^ k, nt, w)})
Halve(k, nt, w) == LET h == 2 ^ (k - 1) mine == Mine(1, h, nt, w) IN Touch({<<"acc", i>> : i \in mine} \cup {<<"acc", h + i>> : i \in mine} \cup {<<"all", w>> : x \in mine})

VARIABLES phase, nt
Phases == {<<"setup", d>> : d \in 1..MaxPow} \cup {<<"reverse", d>> : d \in 0..MaxPow} \cup {<<"mirror", d>> : d \in 0..MaxPow}
          \cup {<<"butterfly", d, s>> : d \in 1..MaxPow, s \in 1..MaxPow}
          \cup {<<"slice", n, c>> : n \in 2..MaxPoints, c \in 1..MaxChunks}
          \cup {<<"buckets", n, c, k>> : n \in {2, MaxPoints}, c \in 1..MaxChunks, k \in 1..MaxK}
          \cup {<<"spread", n, k>> : n \in 2..MaxPoints, k \in 2..MaxK} \cup {<<"fold", k>> : k \in 2..MaxK} \cup {<<"halve", k>> : k \in 2..MaxK}
Init == phase \in {p \in Phases : p[1] = "butterfly" => p[3] <= p[2]} /\ nt \in 1..MaxNt
Next == UNCHANGED <<phase, nt>>
At(w) == LET p == phase IN
    CASE p[1] = "setup" -> Setup(p[2], nt, w) [] p[1] = "reverse" -> Reverse(p[2], nt, w) [] p[1] = "mirror" -> Mirror(p[2], nt, w)
      [] p[1] = "butterfly" -> Butterfly(p[2], p[3], nt, w) [] p[1] = "slice" -> Slice(p[2], p[3], nt, w)
      [] p[1] = "buckets" -> Buckets(p[2], p[3], p[4], nt, w) [] p[1] = "spread" -> Spread(p[2], p[3], nt, w)
      [] p[1] = "fold" -> Fold(p[2], nt, w) [] OTHER -> Halve(p[2], nt, w)
Whole == LET p == phase IN
    CASE p[1] = "setup" -> 2..(2 ^ p[2] - 1) [] p[1] = "reverse" -> {i \in 0..(2 ^ p[2] - 1) : Rev(i, p[2]) # i}
      [] p[1] = "mirror" -> {i \in 1..(2 ^ p[2] - 1) : i # 2 ^ p[2] \div 2} [] p[1] = "butterfly" -> 0..(2 ^ p[2] - 1)
      [] p[1] = "slice" -> {<<"digit", x>> : x \in 0..(p[2] * p[3] - 1)} [] p[1] = "buckets" -> {<<"chunk", j>> : j \in 0..(p[3] - 1)}
      [] p[1] = "fold" -> {<<"acc", x>> : x \in 0..(nt * 2 ^ p[2] - 1)} [] p[1] = "halve" -> {<<"acc", x>> : x \in (1..(2 ^ p[2] - 1)) \ {2 ^ (p[2] - 1)}}
      [] OTHER -> {}
W == 0..(nt - 1)
Disjoint == LET f == [w \in W |-> At(w)] IN \A t, u \in W : t # u => f[t].w \cap (f[u].r \cup f[u].w) = {}
Complete == Whole \subseteq UNION {At(w).w : w \in W}
=============================================================================
