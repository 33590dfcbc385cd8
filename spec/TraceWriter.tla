---------------------------- MODULE TraceWriter -----------------------------
(***************************************************************************)
(* Windows recorded from the code table writer.  A line is                  *)
(*  [id, inter, near, same, tab (<<>>: the default table), dict,             *)
(*   ws |-> << [reqs, ck, app], ... >>]                                      *)
(***************************************************************************)
EXTENDS VcdWriter, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, ok
vars == <<t, l, ok>>
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ ok = "ok"

Verdict(x, w) ==
  LET tab == IF x.tab = <<>> THEN DefaultTable ELSE x.tab
  IN IF ~TableValid(tab, LastMode(x.near, x.same)) THEN "the table is not valid (fault of the check)"
     ELSE LET win == Effects(x.dict, w.reqs)
          IN IF WindowMeans(x.dict, tab, x.near, x.same, x.inter, w.ck, win, w.app) THEN "ok" ELSE "window"

Window == /\ ok = "ok" /\ l <= Len(Traces[t].ws)
          /\ \E v \in {Verdict(Traces[t], Traces[t].ws[l])} :
               /\ ok' = v
               /\ v # "ok" => PrintT("REJECT " \o ToJson([id |-> Traces[t].id, at |-> l, why |-> v]))
          /\ l' = l + 1 /\ UNCHANGED t
Accept == /\ ok = "ok" /\ l = Len(Traces[t].ws) + 1
          /\ PrintT("ACCEPT " \o ToJson([id |-> Traces[t].id]))
          /\ l' = l + 1 /\ UNCHANGED <<t, ok>>
TraceNext == Window \/ Accept
=============================================================================
