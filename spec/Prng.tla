------------------------------- MODULE Prng --------------------------------
(***************************************************************************)
(* Addressed pseudo-random choices: R(<<a, b, ...>>, n) is a number in      *)
(* 0..n-1 determined by the seed and the path <<a, b, ...>>.  No state, so   *)
(* every generated case can be reproduced from its number alone.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANT Seed

P1 == 46337     \* primes with 3 coprime to p-1: cubing is a permutation
P2 == 46307

Cube(y, p) == (((y * y) % p) * y) % p
Stir(x, v) == << Cube((((x[1] * 30011) % P1) + (v % P1) + 7919) % P1, P1),
                 Cube((((x[2] * 27017) % P2) + (v % P2) + 104) % P2, P2) >>

Hash(path) == FoldLeft(LAMBDA x, v : Stir(x, v), Stir(<<11, 17>>, Seed), path)

\* 0 .. n-1
R(path, n) == LET h == Hash(path) IN (h[1] * 46307 + h[2]) % n
\* an element of a sequence
Pick(path, seq) == seq[R(path, Len(seq)) + 1]
\* true with probability 1/n
Chance(path, n) == R(path, n) = 0
=============================================================================
