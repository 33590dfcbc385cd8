---------------------------- MODULE TraceMemory -----------------------------
(***************************************************************************)
(* What the library holds in memory, recorded from the code.  A line is      *)
(*  [id, kind, ops, left]                                                    *)
(* kind "enc": ops are <<size given, times, live before, peak, live after,   *)
(*   output, one-shot>>, the first two being the construction of the         *)
(*   dictionary and of the encoders                                          *)
(* kind "dec": ops are <<size given, limit in force, peak, output>>           *)
(* kind "stream": ops as for "dec"; target data is not to be referred to;     *)
(*   window, delta: the largest target window and its size in the delta        *)
(* kind "run": a run of the command-line encoder for an input of 4 MB and one  *)
(*   for a large input: ops are <<kB resident, kB resident>>                   *)
(* left: what is left after the destruction of all objects, three times over  *)
(* (what is allocated once and for all may be left the first time).           *)
(*                                                                         *)
(* The specification: a dictionary takes memory in proportion to its size;    *)
(* an encoder, on top of that, in proportion to the largest chunk it has been  *)
(* given, whatever their number; a decoder in proportion to what it was given, *)
(* what it has delivered (to which target windows may refer) and the limits;   *)
(* when target windows are not permitted, in proportion to the current window   *)
(* and the chunk, however much has been decoded.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
CONSTANTS PerDict, PerChunk, Slack

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, sum, max, ok
vars == <<t, l, sum, max, ok>>
\* sum: what was given and delivered (dec); the dictionary (enc).  max: largest chunk (enc), largest limit (dec)
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ sum = [given |-> 0, got |-> 0, base |-> 0] /\ max = 0 /\ ok = TRUE
X == Traces[t]
Max2(a, b) == IF a > b THEN a ELSE b

EncStep(o) ==
  IF l <= 2
  THEN /\ ok' = (o[4] - o[3] <= PerDict * o[1] + Slack)
       /\ sum' = [sum EXCEPT !.base = o[5], !.given = o[1]] /\ max' = 0
  ELSE /\ max' = Max2(max, o[1])
       \* the one-shot encoder prepares its dictionary with the first encoding
       /\ sum' = (IF o[7] = 1 THEN [sum EXCEPT !.got = 1] ELSE sum)
       /\ ok' = (o[4] <= sum.base + PerDict * sum.given * sum'.got + PerChunk * max' + Slack)
DecStep(o) ==
  /\ sum' = [sum EXCEPT !.given = @ + o[1], !.got = @ + o[4]]
  /\ max' = Max2(max, o[2])
  /\ ok' = (max' >= 134217728 \/ o[3] <= 200000 + 40 * sum'.given + 8 * sum'.got + 8 * max')

StreamStep(o) ==
  /\ max' = Max2(max, o[1]) /\ sum' = sum
  /\ ok' = (o[3] <= 200000 + 8 * X.window + 40 * (X.delta + max'))
RunStep(o) == max' = max /\ sum' = sum /\ ok' = (o[2] <= o[1] + 12288)

Step == /\ ok /\ l <= Len(X.ops)
        /\ CASE X.kind = "enc" -> EncStep(X.ops[l]) [] X.kind = "stream" -> StreamStep(X.ops[l]) [] X.kind = "run" -> RunStep(X.ops[l])
             [] OTHER -> DecStep(X.ops[l])
        /\ ~ok' => PrintT("REJECT " \o ToJson([id |-> X.id, at |-> l, op |-> X.ops[l], largest |-> max']))
        /\ l' = l + 1 /\ UNCHANGED t
Accept == /\ ok /\ l = Len(X.ops) + 1
          /\ PrintT(IF X.left[2] > 0 /\ X.left[3] > 0 THEN "REJECT " \o ToJson([id |-> X.id, at |-> 0, left |-> X.left])
                    ELSE "ACCEPT " \o ToJson([id |-> X.id]))
          /\ l' = l + 1 /\ UNCHANGED <<t, sum, max, ok>>
TraceNext == Step \/ Accept
=============================================================================
