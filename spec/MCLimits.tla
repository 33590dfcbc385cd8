----------------------------- MODULE MCLimits ------------------------------
(***************************************************************************)
(* The size limits of the decoder where numbers do not fit in 32 bits.      *)
(* Sizes here are k * Unit + e with a small e; the replay makes the unit    *)
(* 2^26 bytes, so that 64 units are 2^32 bytes.  As long as the sum of the  *)
(* e stays far below half a unit, every comparison of sums comes out the    *)
(* same for both units.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Depth, Control
Unit == 100000
N(k, e) == [k |-> k, e |-> e]
V(n) == n.k * Unit + n.e

FileLimits == {N(64, -1), N(64, 0), N(64, 1), N(65, 0), N(128, 0), N(192, 5)}
WinLimits == {N(1, 0), N(1, 1)}
Windows == {N(0, 1), N(1, -1), N(1, 0), N(1, 1)}
Bursts == {63, 64}                          \* so many windows of one unit

VARIABLES total, maxFile, maxWin, dead, hist
vars == <<total, maxFile, maxWin, dead, hist>>

\* A control truncates the total, or the rest, to 32 bits (64 units).
Trunc(x) == x % (64 * Unit)
Sum(t, n) == IF Control = "total32" THEN Trunc(t) + n ELSE t + n
Fits(n) == /\ n <= maxWin
           /\ IF Control = "rest32" THEN n <= Trunc(maxFile - total) ELSE Sum(total, n) <= maxFile

Init == /\ \E f \in FileLimits, w \in WinLimits :
             /\ maxFile = V(f) /\ maxWin = V(w)
             /\ hist = <<[op |-> "maxfile", n |-> f, ret |-> TRUE], [op |-> "maxwin", n |-> w, ret |-> TRUE]>>
        /\ total = 0 /\ dead = FALSE
\* without any setting
Default == N(1, 0)
InitDefault == /\ maxFile = V(Default) /\ maxWin = V(Default) /\ hist = <<>> /\ total = 0 /\ dead = FALSE

Burst(k) == /\ Len(hist) = 2 /\ ~dead
            /\ total' = k * Unit
            /\ hist' = Append(hist, [op |-> "burst", n |-> N(k, 0), ret |-> TRUE])
            /\ UNCHANGED <<maxFile, maxWin, dead>>
            /\ k * Unit <= maxFile
Window(n) == /\ Len(hist) > 2 \/ (hist # <<>> => hist[1].op # "maxfile")
             /\ Len(hist) < Depth /\ ~dead
             /\ hist' = Append(hist, [op |-> "window", n |-> n, ret |-> Fits(V(n))])
             /\ IF Fits(V(n)) THEN total' = total + V(n) /\ dead' = dead ELSE total' = total /\ dead' = TRUE
             /\ UNCHANGED <<maxFile, maxWin>>
SetFile(f) == /\ Len(hist) > 2
              /\ Len(hist) < Depth - 1 /\ ~dead
              /\ maxFile' = V(f)
              /\ hist' = Append(hist, [op |-> "maxfile", n |-> f, ret |-> TRUE])
              /\ UNCHANGED <<total, maxWin, dead>>
Next == \/ \E k \in Bursts : Burst(k)
        \/ \E n \in Windows : Window(n)
        \/ \E f \in FileLimits : SetFile(f)
Spec == (Init \/ InitDefault) /\ [][Next]_vars

\* What has been delivered was within the limit when it was.
Step(h) == h.op = "window" /\ h.ret
WithinLimit == [][(total' # total) => total' <= maxFile]_vars
\* and nothing that fits is refused
NotRefused == [][dead' # dead => LET n == hist'[Len(hist')].n IN V(n) > maxWin \/ total + V(n) > maxFile]_vars

Emit == (dead \/ Len(hist) = Depth) => PrintT("HIST " \o ToJson(hist))
=============================================================================
