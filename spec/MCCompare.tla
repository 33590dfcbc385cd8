------------------------------ MODULE MCCompare -----------------------------
(***************************************************************************)
(* The second half of "vcdiff test" as a process: it reads the delta file     *)
(* piece by piece, decodes, and compares what comes out with the target file, *)
(* which it reads along.  Here the delta file need not hold what the first    *)
(* half wrote: something else may have become of it, and finding that out is  *)
(* what the command is for.                                                  *)
(*   n     units in the target file                                          *)
(*   m     units the delta decodes to                                         *)
(*   diff  the first of them that differs from the target file (0: none)      *)
(*   buf   windows of the delta read at a time                                *)
(*   odd   the last unit of the longer of the two is a single byte            *)
(*   file  "ok", "cut" (incomplete), "bad" (a window is corrupt), "empty"     *)
(*         (nothing at all, which decodes to nothing)                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Units, Control

Scenario == { s \in [n : 0..Units, m : 0..Units, diff : 0..Units, buf : 1..(Units + 1), odd : BOOLEAN, file : {"ok", "cut", "bad", "empty"}] :
                /\ s.diff <= s.m /\ s.diff <= s.n
                /\ s.odd => s.n # s.m
                /\ s.file = "empty" => s.m = 0
                /\ s.file \in {"cut", "bad"} => s.m > 0 /\ s.diff = 0 }

VARIABLES sc, pc, read, seen, status, calls
vars == <<sc, pc, read, seen, status, calls>>
\* read: windows read; seen: units compared; calls: comparisons with something to compare
Init == sc \in Scenario /\ pc = "read" /\ read = 0 /\ seen = 0 /\ status = -1 /\ calls = 0
Exit(st) == pc' = "exit" /\ status' = st

Min(a, b) == IF a < b THEN a ELSE b
Complete(q) == IF sc.file = "cut" THEN Min(q, sc.m - 1) ELSE q
Read ==
  /\ pc = "read"
  /\ LET q == Min(read + sc.buf, sc.m)
         out == Complete(q) - Complete(read)                 \* units that come out
         eof == read + sc.buf > sc.m
         from == Complete(read)
         short == from + out > sc.n
         differs == sc.diff > from /\ sc.diff <= from + out
         looked == ~(Control = "first" /\ calls > 0)
     IN /\ read' = q
        /\ seen' = seen + out
        /\ calls' = calls + (IF out > 0 THEN 1 ELSE 0)
        /\ IF sc.file = "bad" /\ q = sc.m /\ read < sc.m THEN Exit(1)
           ELSE IF out > 0 /\ short /\ Control # "short" THEN Exit(1)
           ELSE IF out > 0 /\ differs /\ looked THEN Exit(1)
           ELSE pc' = (IF eof THEN "finish" ELSE "read") /\ UNCHANGED status
  /\ UNCHANGED sc
Finish == /\ pc = "finish"
          /\ IF sc.file = "cut" /\ Control # "nofinish" THEN Exit(1) ELSE pc' = "end" /\ UNCHANGED status
          /\ UNCHANGED <<sc, read, seen, calls>>
End == /\ pc = "end"
       /\ IF seen < sc.n /\ Control # "noend" THEN Exit(1) ELSE Exit(0)
       /\ UNCHANGED <<sc, read, seen, calls>>
Next == Read \/ Finish \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Same == sc.file \in {"ok", "empty"} /\ sc.n = sc.m /\ sc.diff = 0
Truthful == pc = "exit" => (status = 0) = Same
Ends == <>(pc = "exit")
Emit == pc = "exit" /\ Control = "none" => PrintT("SCEN " \o ToJson([sc |-> sc, status |-> status]))
=============================================================================
