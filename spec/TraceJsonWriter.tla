-------------------------- MODULE TraceJsonWriter ---------------------------
(***************************************************************************)
(* JSON text recorded from the JSON code table writer driven directly.      *)
(* A line is [id, dict, ws |-> << requests of window 1, ... >>, text].       *)
(* Copy addresses count the target from the start of their own window, the  *)
(* offsets in the text count the whole target.                              *)
(***************************************************************************)
EXTENDS VcdWriter, Json, IOUtils
Js == INSTANCE VcdJson
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, ok
vars == <<t, ok>>
TraceInit == t \in 1..Len(Traces) /\ ok = "start"

Target(x) == FoldLeft(LAMBDA s, w : s \o Effects(x.dict, w), <<>>, x.ws)
Fine(x) ==
  LET r == Js!Parse(x.text)
  IN /\ r.ok
     /\ LET b == Js!Rebuild(x.dict, r.items, 1, <<>>) IN b.ok /\ b.t = Target(x)
TraceNext ==
  /\ ok = "start"
  /\ \E v \in {Fine(Traces[t])} :
       /\ PrintT((IF v THEN "ACCEPT " ELSE "REJECT ") \o ToJson([id |-> Traces[t].id, why |-> "text"]))
       /\ ok' = IF v THEN "ok" ELSE "bad"
  /\ UNCHANGED t
=============================================================================
