------------------------------ MODULE MCStream ------------------------------
(***************************************************************************)
(* What a streaming decoder holds.  A delta is a sequence of windows, each   *)
(* of them two units of delta long (so that a chunk can end inside one) and   *)
(* standing for Size units of target.  The caller feeds it in chunks of any   *)
(* length.  The decoder keeps the delta units it cannot use yet (pend) and    *)
(* target data (held): all of it when later windows may refer to it, that of  *)
(* the current window otherwise.                                             *)
(*                                                                         *)
(* Two shapes: "split" windows can be decoded only when they are complete;    *)
(* "inter" (interleaved) ones give half of their target with the first unit.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxUnits, MaxChunk, Size, Control
ASSUME Size % 2 = 0

VARIABLES allow, shape, fed, pend, held, start, out, most, hist
vars == <<allow, shape, fed, pend, held, start, out, most, hist>>
\* fed: units given.  held: target units in memory, of which those before start belong to earlier windows.
\* out: units delivered.  most: the largest amount held during the last call
Init == /\ allow \in BOOLEAN /\ shape \in {"split", "inter"}
        /\ fed = 0 /\ pend = 0 /\ held = 0 /\ start = 0 /\ out = 0 /\ most = 0 /\ hist = <<>>

\* One unit is consumed, or none: what is then pending, held and decoded in this call.
RECURSIVE Consume(_)
\* s: [pend, pos (unit within the window), held, start, new (undelivered target units), out, most]
Consume(s) ==
  IF s.pend = 0 THEN s
  ELSE LET whole == s.pend >= 2 - s.pos
           first == shape = "inter" /\ s.pos = 0
           used == IF shape = "inter" THEN 1 ELSE 2
       IN IF shape = "split" /\ ~whole THEN s
          ELSE LET gain == IF shape = "inter" THEN Size \div 2 ELSE Size
                   h == s.held + gain
                   ends == shape = "split" \/ s.pos = 1
                   drop == ends /\ (CASE Control = "neverdrop" -> FALSE
                                      [] Control = "alwaysdrop" -> TRUE
                                      [] OTHER -> ~allow)
               IN Consume([pend |-> s.pend - used, pos |-> IF ends THEN 0 ELSE 1,
                           held |-> IF drop THEN 0 ELSE h, start |-> IF ends THEN IF drop THEN 0 ELSE h ELSE s.start,
                           got |-> s.got + gain, most |-> IF h > s.most THEN h ELSE s.most])

Pos == IF shape = "inter" THEN (fed - pend) % 2 ELSE 0
Chunk(n) ==
  /\ fed + n <= MaxUnits
  /\ \E s \in {Consume([pend |-> pend + n, pos |-> Pos, held |-> held, start |-> start, got |-> 0, most |-> held])} :
       /\ pend' = (IF Control = "keepdelta" THEN pend + n ELSE s.pend)
       /\ held' = s.held /\ start' = s.start /\ most' = s.most
       /\ out' = out + s.got
  /\ fed' = fed + n
  /\ hist' = Append(hist, n)
  /\ UNCHANGED <<allow, shape>>
ZeroOnce(n) == (n = 0 /\ hist # <<>>) => hist[Len(hist)] # 0
Next == \E n \in 0..MaxChunk : ZeroOnce(n) /\ Chunk(n)
Spec == Init /\ [][Next]_vars

Complete == fed \div 2
\* What can be delivered has been.
Delivered == Control # "keepdelta" => out = (IF shape = "inter" THEN fed * (Size \div 2) ELSE Complete * Size)
\* Without permission to refer to it, target data of earlier windows is not held, not even during a call.
OneWindow == ~allow => most <= Size
\* With permission all of it can be referred to.
AllThere == allow => held = out /\ start = Complete * Size
\* Delta bytes are held for the current window only.
PendingBounded == pend <= 1

Emit == (fed = MaxUnits) => PrintT("HIST " \o ToJson([allow |-> allow, shape |-> shape, chunks |-> hist]))
=============================================================================
