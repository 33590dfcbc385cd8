------------------------------ MODULE TraceCli ------------------------------
(***************************************************************************)
(* Runs of the vcdiff program.  A line of TRACE is                           *)
(*  [id, cmd, dict, in, out (what the output holds afterwards), ok (exit     *)
(*   status 0), openable (dictionary, input and output can be opened),       *)
(*   rderr (reading the input fails), cap (what the output can hold; -1: any),*)
(*   full (the output of the same run with no fault; encode and test only),   *)
(*   usage (the command line is acceptable), allow, maxFile, maxWin, inter,   *)
(*   ck, json]                                                               *)
(***************************************************************************)
EXTENDS VcdEncoder, IOUtils, Json

Runs == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, done
vars == <<t, done>>
TraceInit == t \in 1..Len(Runs) /\ done = FALSE

Fits(x, n) == x.cap < 0 \/ n <= x.cap
Opt(x) == [dict |-> x.dict, allow |-> x.allow, maxFile |-> x.maxFile, maxWin |-> x.maxWin, planned |-> -1]

\* every window of the file has the requested format
RECURSIVE Formats(_, _, _, _)
Formats(cfg, d, p, prior) ==
  IF p > Len(d) THEN TRUE
  ELSE LET r == Rf!RfcWindow(RfcCfg(cfg), d, p, prior)
       IN r.ok /\ WindowFormat(cfg, r.win, SubSeq(d, p, r.p - 1)) /\ Formats(cfg, d, r.p, prior \o r.win)
Encodes(x, o) ==
  IF x.json THEN Js!Denotes(o, x.dict, x.in)
  ELSE LET cfg == [dict |-> x.dict, inter |-> x.inter, ck |-> x.ck, json |-> FALSE, match |-> TRUE]
           m == Rf!Meaning(o, Rf!DefaultOpt(x.dict))
       IN /\ m.valid /\ m.target = x.in
          /\ SubSeq(o, 1, 5) = EncHeader(cfg)
          /\ Formats(cfg, o, 6, <<>>)
CanEncode(x) == x.usage /\ x.openable /\ ~x.rderr /\ (x.json => Ascii(x.dict) /\ Ascii(x.in)) /\ Fits(x, Len(x.full))

Verdict(x) ==
  CASE x.cmd = "encode" ->
         IF x.ok /\ ~CanEncode(x) THEN "success reported although the delta cannot be complete"
         ELSE IF ~x.ok /\ CanEncode(x) THEN "failure reported although nothing failed"
         ELSE IF x.ok /\ ~Encodes(x, x.out) THEN "success reported but the output is not an encoding of the target" ELSE "ok"
    [] x.cmd = "decode" ->
         LET m == Rf!Meaning(x.in, Opt(x))
             can == x.usage /\ x.openable /\ ~x.rderr /\ m.valid /\ Fits(x, Len(m.target))
         IN IF x.ok /\ ~can THEN "success reported although the target cannot be complete"
            ELSE IF ~x.ok /\ can THEN "failure reported although nothing failed"
            ELSE IF x.ok /\ x.out # m.target THEN "success reported but the output is not the target" ELSE "ok"
    [] x.cmd = "test" ->
         LET m == Rf!Meaning(x.full, Opt(x))
             can == CanEncode(x) /\ m.valid /\ m.target = x.in
         IN IF x.ok /\ ~can THEN "success reported although the comparison cannot succeed"
            ELSE IF ~x.ok /\ can THEN "failure reported although nothing failed"
            ELSE IF x.ok /\ ~Encodes(x, x.out) THEN "success reported but the delta is not an encoding of the target" ELSE "ok"
    [] OTHER -> IF x.ok THEN "success reported for no command" ELSE "ok"

TraceNext ==
  /\ ~done /\ done' = TRUE /\ UNCHANGED t
  /\ \E v \in {Verdict(Runs[t])} :
       IF v = "ok" THEN PrintT("ACCEPT " \o ToJson([id |-> Runs[t].id]))
       ELSE PrintT("REJECT " \o ToJson([id |-> Runs[t].id, why |-> v]))
=============================================================================
