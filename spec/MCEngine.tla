------------------------------ MODULE MCEngine ------------------------------
(***************************************************************************)
(* The matching engine, for any block size B: hash chains over the aligned  *)
(* blocks of the dictionary (and of the target produced so far), a candidate *)
(* position that moves through the target, best match extended in both       *)
(* directions.  All dictionaries and targets over Symbols up to the given     *)
(* lengths.  Bucket(b) is an arbitrary hash with collisions.                  *)
(***************************************************************************)
EXTENDS VcdEngine, TLC, Json, FiniteSets, FiniteSetsExt
CONSTANTS B, Symbols, MinDict, MaxDict, MinTarget, MaxTarget, MaxProbes, MaxMatches, Control, Out

VARIABLES dict, tgt, match, nxt, cand, added, insts, done
vars == <<dict, tgt, match, nxt, cand, added, insts, done>>

MinCopy == 2 * B
D == Len(dict)
T == Len(tgt)
At(s, i) == s[i + 1]
Block(s, k) == SubSeq(s, k * B + 1, k * B + B)
Bucket(b) == FoldLeft(LAMBDA a, x : a + x, 0, b) % 2

Seqs(lo, hi) == UNION {[1..n -> Symbols] : n \in lo..hi}
Init == /\ dict \in Seqs(MinDict, MaxDict) /\ tgt \in Seqs(MinTarget, MaxTarget) /\ match \in BOOLEAN
        /\ nxt = 0 /\ cand = 0 /\ added = 0 /\ insts = <<>> /\ done = FALSE

\* Blocks of s that are reached from the bucket of c in the order they were added, at most MaxProbes
\* others being passed between two that match, and at most MaxMatches in all.  seen counts the blocks looked at.
RECURSIVE Walk(_, _, _, _, _, _, _)
Walk(s, c, k, limit, probes, acc, seen) ==
  IF k >= limit THEN [blocks |-> acc, seen |-> seen]
  ELSE IF Bucket(Block(s, k)) # Bucket(c) THEN Walk(s, c, k + 1, limit, probes, acc, seen)
  ELSE IF Block(s, k) = c
       THEN IF Len(acc) >= MaxMatches /\ Control # "allmatches" THEN [blocks |-> acc, seen |-> seen + 1]
            ELSE Walk(s, c, k + 1, limit, 0, Append(acc, k), seen + 1)
  ELSE IF probes + 1 > MaxProbes /\ Control # "allprobes" THEN [blocks |-> acc, seen |-> seen + 1]
  ELSE Walk(s, c, k + 1, limit, probes + 1, acc, seen + 1)
Chain(s, c, limit) == Walk(s, c, 0, limit, 0, <<>>, 0).blocks

RECURSIVE Left(_, _, _)
Left(s, i, j) == IF i = 0 \/ j = nxt \/ At(s, i - 1) # At(tgt, j - 1) THEN 0 ELSE 1 + Left(s, i - 1, j - 1)
RECURSIVE Right(_, _, _)
Right(s, i, j) ==
  IF i >= Len(s) \/ j >= T THEN 0 ELSE IF At(s, i) # At(tgt, j) THEN 0 ELSE 1 + Right(s, i + 1, j + 1)

\* <<size, source offset (with start), target position>>
Extended(s, start, k) ==
  LET l == IF Control = "noleft" THEN 0 ELSE Left(s, k * B, cand)
      r == IF Control = "crossend" /\ start = 0 THEN Right(dict \o tgt, k * B + B, cand + B)
           ELSE IF Control = "capright" THEN Min({2, Right(s, k * B + B, cand + B)})
           ELSE Right(s, k * B + B, cand + B)
  IN <<l + B + r, start + k * B - l, cand - l>>
Better(best, s, start, limit) ==
  FoldLeft(LAMBDA m, k : LET x == Extended(s, start, k) IN IF x[1] > m[1] THEN x ELSE m,
           best, IF Control = "firstonly" /\ Len(Chain(s, SubSeq(tgt, cand + 1, cand + B), limit)) > 0
                 THEN SubSeq(Chain(s, SubSeq(tgt, cand + 1, cand + B), limit), 1, 1)
                 ELSE Chain(s, SubSeq(tgt, cand + 1, cand + B), limit))
Best ==
  LET m == Better(<<0, 0, 0>>, dict, 0, D \div B)
  IN IF match THEN Better(m, tgt, D, IF Control = "ahead" THEN T \div B ELSE added) ELSE m

\* Whatever could be copied for the block at cand, in the dictionary or in the blocks of the target entered so far.
Sources == {Extended(dict, 0, k) : k \in {j \in 0..(D \div B - 1) : Block(dict, j) = SubSeq(tgt, cand + 1, cand + B)}}
           \cup (IF ~match THEN {} ELSE
                 {Extended(tgt, D, k) : k \in {j \in 0..(added - 1) : Block(tgt, j) = SubSeq(tgt, cand + 1, cand + B)}})

Literal(from, to) == IF to > from THEN <<<<1, to - from, -1, from>>>> ELSE <<>>
LastBlock == IF Control = "endearly" THEN T - B - 2 ELSE T - B
\* blocks starting before position p
BlocksBelow(p) == Min({(p + B - 1) \div B, T \div B})

Small == ~done /\ T < B /\ insts' = Literal(0, T) /\ done' = TRUE /\ UNCHANGED <<dict, tgt, match, nxt, cand, added>>
End == insts' = insts \o Literal(nxt, T) /\ done' = TRUE

Found(m) ==
  LET e == m[3] + m[1]
      is == insts \o Literal(nxt, m[3]) \o <<<<3, m[1], m[2], m[3]>>>>
  IN /\ nxt' = e /\ cand' = e
     /\ IF e > LastBlock THEN insts' = is \o Literal(e, T) /\ done' = TRUE /\ UNCHANGED added
        ELSE /\ insts' = is /\ done' = FALSE
             /\ added' = (IF Control = "forget" THEN added ELSE IF BlocksBelow(e) > added THEN BlocksBelow(e) ELSE added)
     /\ UNCHANGED <<dict, tgt, match>>
NotFound ==
  IF cand + 1 > LastBlock
  THEN End /\ UNCHANGED <<dict, tgt, match, nxt, cand, added>>
  ELSE /\ added' = (IF cand = added * B THEN added + 1 ELSE added)
       /\ cand' = cand + 1
       /\ UNCHANGED <<dict, tgt, match, nxt, insts, done>>
Search ==
  /\ ~done /\ T >= B
  /\ \E m \in {Best} : IF m[1] >= (IF Control = "short" THEN MinCopy - 1 ELSE MinCopy) THEN Found(m) ELSE NotFound

Next == Small \/ Search
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
Reproduces == LET p == Produced(dict, tgt, insts, 1, <<>>) IN p = SubSeq(tgt, 1, Len(p)) /\ (done => p = tgt)
Allowed == CopiesAllowed(D, match, insts)
NoShort == NoCopyBelow(MinCopy, insts)
\* the index must have been complete when it was searched: only for few blocks
FoundInDict == done => DictFound(MinCopy, dict, tgt, insts)
FoundInTarget == done /\ match => TargetFound(3 * B - 1, tgt, insts)
\* With the margins of FoundInTarget: a repetition of two blocks is found as well
FoundInTarget2 == done /\ match => TargetFound(2 * B, tgt, insts)
Maximal == CopiesMaximal(dict, tgt, insts) /\ LiteralsWhole(insts)
InRange == nxt <= cand /\ cand <= T /\ added * B <= T
\* what is done at one position does not grow with the dictionary or the target
WorkBounded ==
  ~done /\ T >= B =>
    \A x \in {<<dict, D \div B>>, <<tgt, added>>} :
      Walk(x[1], SubSeq(tgt, cand + 1, cand + B), 0, x[2], 0, <<>>, 0).seen <= (MaxMatches + 1) * (MaxProbes + 1)
\* the longest of them is taken
LongestTaken == [][T >= B /\ nxt' > nxt => \A c \in Sources : c[1] <= nxt' - (nxt + (IF insts'[Len(insts) + 1][1] = 1 THEN insts'[Len(insts) + 1][2] ELSE 0))]_vars
\* every step brings the end nearer
Progress == [][cand' > cand \/ done']_vars
Terminates == <>done

\* For replay: the positions at which MinCopy symbols of the dictionary, resp. 3*B symbols of the target, occur again.
MustDict == {p \in 0..(T - MinCopy) : \E i \in 0..(D - MinCopy) : SameBytes(dict, i, tgt, p, MinCopy)}
MustTarget == IF ~match THEN {} ELSE {p \in 0..(T - 3 * B) : \E q \in 0..(p - 1) : SameBytes(tgt, q, tgt, p, 3 * B)}
Emit == done /\ Out /\ (MustDict # {} \/ MustTarget # {}) =>
          PrintT("E " \o ToJson([d |-> dict, t |-> tgt, m |-> match, i |-> insts,
                                 md |-> SetToSeq(MustDict), mt |-> SetToSeq(MustTarget)]))
=============================================================================
