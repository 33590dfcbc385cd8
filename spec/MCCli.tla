------------------------------- MODULE MCCli --------------------------------
(***************************************************************************)
(* The vcdiff program as a process: it opens files, then reads, codes and     *)
(* writes piece by piece until the input ends, then finishes.  Reading may    *)
(* fail after some units, the output may be unable to take more than cap      *)
(* units, and what is written may sit in a stdio buffer until it spills or    *)
(* is flushed.  A scenario fixes all of that; TLC goes through all scenarios  *)
(* and the file-level outcome of each is what the real program is held to.    *)
(*   encode:  1 unit of header, then 1 unit per piece read                    *)
(*   decode:  unit 1 of the input is the header, each further one a window of  *)
(*            1 unit; unit bad (0: none) is corrupt; cut: the last unit is      *)
(*            incomplete                                                       *)
(*   test:    encode, then decode what was written and compare                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS MaxIn, MaxBuf, Stdio, Control

NoCap == 99
Scenario ==
  { s \in [cmd : {"encode", "decode", "test"}, dict : {"ok", "missing"}, src : {"file", "stdin"}, dst : {"file", "stdout"},
           in : {"ok", "missing", "error"}, at : 0..MaxIn, len : 0..MaxIn, buf : 1..MaxBuf, bad : 0..MaxIn, cut : BOOLEAN,
           out : {"ok", "unopenable"}, cap : (0..(MaxIn + 2)) \cup {NoCap}] :
      /\ s.in # "error" => s.at = 0
      /\ s.in = "error" => s.at <= s.len
      /\ s.bad <= s.len
      /\ s.cmd # "decode" => s.bad = 0 /\ ~s.cut
      /\ s.cut => s.len > 0
      /\ s.cmd = "test" => s.src = "file" /\ s.dst = "file"
      /\ s.in = "missing" => s.src = "file"
      \* one thing at a time is enough for what cannot even be opened
      /\ (s.dict = "missing" \/ s.in = "missing" \/ s.out = "unopenable") => s.cap = NoCap /\ s.bad = 0 /\ ~s.cut /\ s.buf = 1
      /\ s.out = "unopenable" => s.dst = "file" }

VARIABLES sc, pc, pos, pend, dev, fail, status, out2
vars == <<sc, pc, pos, pend, dev, fail, status, out2>>
\* pos: units read; pend: units in the stdio buffer; dev: units on the device; fail: the stream has an error;
\* out2: units the second phase of test has compared
Init == sc \in Scenario /\ pc = "dict" /\ pos = 0 /\ pend = 0 /\ dev = 0 /\ fail = FALSE /\ status = -1 /\ out2 = 0

Exit(st) == pc' = "exit" /\ status' = st
Buf == IF sc.src = "stdin" THEN sc.buf
       ELSE IF Control = "zerobuf" THEN (IF sc.len < sc.buf THEN sc.len ELSE sc.buf)
       ELSE IF sc.len = 0 THEN 1 ELSE IF sc.len < sc.buf THEN sc.len ELSE sc.buf

\* Append n units to the output stream: what does not fit into the stdio buffer goes to the device.
Room == sc.cap - dev
Put(n) == IF pend + n <= Stdio THEN [pend |-> pend + n, dev |-> dev, fail |-> fail]
          ELSE IF pend + n <= Room THEN [pend |-> 0, dev |-> dev + pend + n, fail |-> fail]
          ELSE [pend |-> 0, dev |-> sc.cap, fail |-> TRUE]
Spill == IF pend <= Room THEN [pend |-> 0, dev |-> dev + pend, fail |-> fail]
         ELSE [pend |-> 0, dev |-> sc.cap, fail |-> TRUE]

Dict == pc = "dict" /\ (IF sc.dict = "missing" THEN Exit(1) ELSE pc' = "in" /\ UNCHANGED status)
        /\ UNCHANGED <<sc, pos, pend, dev, fail, out2>>
In == pc = "in" /\ (IF sc.in = "missing" THEN Exit(1) ELSE pc' = "out" /\ UNCHANGED status)
      /\ UNCHANGED <<sc, pos, pend, dev, fail, out2>>
Out == /\ pc = "out"
       /\ IF sc.out = "unopenable" THEN Exit(1) /\ UNCHANGED <<pend, dev, fail>>
          ELSE /\ UNCHANGED status
               /\ IF sc.cmd = "decode" THEN pc' = "read" /\ UNCHANGED <<pend, dev, fail>>
                  ELSE \E w \in {Put(1)} : pend' = w.pend /\ dev' = w.dev /\ fail' = w.fail /\ pc' = "wrote"
       /\ UNCHANGED <<sc, pos, out2>>
\* After a write: an error of the stream is noticed.
Wrote == pc = "wrote" /\ (IF fail /\ Control # "nowritecheck" THEN Exit(1) ELSE pc' = "read" /\ UNCHANGED status)
         /\ UNCHANGED <<sc, pos, pend, dev, fail, out2>>

\* The number of target units among the input units p+1..q (decode), as complete windows.
Wins(p, q) == Cardinality({u \in (p + 1)..q : u >= 2 /\ ~(sc.cut /\ u = sc.len)})
Read ==
  /\ pc = "read"
  /\ LET end == IF sc.in = "error" THEN sc.at ELSE sc.len
         q == IF pos + Buf <= end THEN pos + Buf ELSE end
         eof == pos + Buf > end                          \* a short read: the end, or an error
         err == sc.in = "error" /\ eof
         corrupt == sc.cmd = "decode" /\ sc.bad \in (pos + 1)..q
         n == IF q = pos THEN 0 ELSE IF sc.cmd = "decode" THEN Wins(pos, q) ELSE 1
     IN /\ pos' = q
        /\ IF err /\ Control # "noreadcheck" THEN Exit(1) /\ UNCHANGED <<pend, dev, fail>>
           ELSE IF corrupt THEN Exit(1) /\ UNCHANGED <<pend, dev, fail>>
           ELSE \E w \in {Put(n)} :
                  /\ pend' = w.pend /\ dev' = w.dev /\ fail' = w.fail /\ UNCHANGED status
                  /\ pc' = IF eof THEN "finish" ELSE "wrote"
  /\ UNCHANGED <<sc, out2>>
Finish ==
  /\ pc = "finish"
  /\ IF fail /\ Control # "nowritecheck" THEN Exit(1)
     ELSE IF sc.cmd = "decode" /\ sc.cut /\ Control # "nofinish" THEN Exit(1)
     ELSE pc' = "flush" /\ UNCHANGED status
  /\ UNCHANGED <<sc, pos, pend, dev, fail, out2>>
Flush ==
  /\ pc = "flush"
  /\ \E w \in {Spill} :
       /\ pend' = w.pend /\ dev' = w.dev /\ fail' = w.fail
       /\ IF pend > Room /\ Control # "noflush" THEN Exit(1)
          ELSE IF sc.cmd = "test" THEN pc' = "compare" /\ UNCHANGED status
          ELSE Exit(0)
  /\ UNCHANGED <<sc, pos, out2>>
\* The second phase of test: all pieces come back.
Pieces == IF sc.len = 0 THEN 0 ELSE (sc.len + Buf - 1) \div Buf
Compare == /\ pc = "compare"
           /\ IF dev = 1 + Pieces THEN Exit(0) ELSE Exit(1)
           /\ out2' = dev - 1 /\ UNCHANGED <<sc, pos, pend, dev, fail>>

Next == Dict \/ In \/ Out \/ Wrote \/ Read \/ Finish \/ Flush \/ Compare
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
Total == IF sc.cmd = "decode" THEN Wins(0, sc.len) ELSE 1 + Pieces
Possible == /\ sc.dict = "ok" /\ sc.in = "ok" /\ sc.out = "ok" /\ sc.cap >= Total /\ sc.bad = 0 /\ ~sc.cut
Truthful == pc = "exit" => (status = 0) = Possible
Written == status = 0 => dev = Total /\ pend = 0
Ends == <>(pc = "exit")
Emit == pc = "exit" /\ Control = "none" => PrintT("SCEN " \o ToJson([sc |-> sc, status |-> status, total |-> Total]))
=============================================================================
