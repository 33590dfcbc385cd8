----------------------------- MODULE VcdEngine ------------------------------
(***************************************************************************)
(* Rules about the instructions an encoder chooses, independent of how they *)
(* are found and of the block size.  An instruction is                      *)
(*   <<type (1 ADD, 2 RUN, 3 COPY), size, address or -1, target position>>   *)
(* D is the size of the dictionary, positions and addresses count from 0.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

LOCAL CopyInst == 3

\* C13: inside the dictionary, or starting in the part of the window already produced.
CopiesAllowed(D, match, insts) ==
  \A i \in 1..Len(insts) :
    insts[i][1] = CopyInst =>
      LET n == insts[i][2]   a == insts[i][3]   pos == insts[i][4]
      IN /\ a >= 0
         /\ a + n <= D \/ (match /\ a >= D /\ a < D + pos)

\* C14: no copy shorter than n.
NoCopyBelow(n, insts) == \A i \in 1..Len(insts) : insts[i][1] = CopyInst => insts[i][2] >= n

\* Maximal literal stretches <<from, to>> (to exclusive).
LitStretches(insts) ==
  FoldLeft(LAMBDA acc, x :
             IF x[1] = CopyInst THEN acc
             ELSE LET k == Len(acc)
                  IN IF k > 0 /\ acc[k][2] = x[4] THEN [acc EXCEPT ![k] = <<acc[k][1], x[4] + x[2]>>]
                     ELSE Append(acc, <<x[4], x[4] + x[2]>>),
           <<>>, insts)

\* s[i..i+n-1] = t[j..j+n-1], positions from 0, both inside
RECURSIVE SameBytes(_, _, _, _, _)
SameBytes(s, i, t, j, n) == n = 0 \/ (s[i + 1] = t[j + 1] /\ SameBytes(s, i + 1, t, j + 1, n - 1))

\* C14: within a literal stretch nothing of length n occurs in the dictionary ...
DictFound(n, dict, target, insts) ==
  LET ls == LitStretches(insts)
  IN \A k \in 1..Len(ls) :
       \A p \in ls[k][1]..(ls[k][2] - n) :
         \A i \in 0..(Len(dict) - n) : ~SameBytes(dict, i, target, p, n)
\* ... nor, with target matching, earlier in the target.
TargetFound(n, target, insts) ==
  LET ls == LitStretches(insts)
  IN \A k \in 1..Len(ls) :
       \A p \in ls[k][1]..(ls[k][2] - n) :
         \A q \in 0..(p - 1) : ~SameBytes(target, q, target, p, n)

\* C22: every copy is as long as it can be: it cannot be extended to the right, nor to the left into literal data ...
CopiesMaximal(dict, target, insts) ==
  LET D == Len(dict)   T == Len(target)
  IN \A i \in 1..Len(insts) :
       insts[i][1] = CopyInst =>
         LET n == insts[i][2]   a == insts[i][3]   pos == insts[i][4]
             src == IF a < D THEN dict ELSE target
             b == IF a < D THEN a ELSE a - D
         IN /\ b + n < Len(src) /\ pos + n < T => src[b + n + 1] # target[pos + n + 1]
            /\ i > 1 => (insts[i - 1][1] # CopyInst /\ b > 0 => src[b] # target[pos])
\* ... and literal data between two copies is one instruction.
LiteralsWhole(insts) == \A i \in 1..(Len(insts) - 1) : insts[i][1] = CopyInst \/ insts[i + 1][1] = CopyInst

\* What the instructions produce, the literal data being taken from target itself.
RECURSIVE CopyFrom(_, _, _, _)
CopyFrom(dict, out, a, n) ==
  IF n = 0 THEN out
  ELSE LET D == Len(dict)
           b == IF a < D THEN dict[a + 1] ELSE out[a - D + 1]
       IN CopyFrom(dict, Append(out, b), a + 1, n - 1)
RECURSIVE Produced(_, _, _, _, _)
Produced(dict, target, insts, i, out) ==
  IF i > Len(insts) THEN out
  ELSE LET x == insts[i]
       IN IF x[1] = CopyInst
          THEN IF x[3] >= Len(dict) + Len(out) THEN <<>> ELSE Produced(dict, target, insts, i + 1, CopyFrom(dict, out, x[3], x[2]))
          ELSE Produced(dict, target, insts, i + 1, out \o SubSeq(target, Len(out) + 1, Len(out) + x[2]))
=============================================================================
