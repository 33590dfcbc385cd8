----------------------------- MODULE TraceCache -----------------------------
(***************************************************************************)
(* Address caches recorded from the code.  A line is [id, near, same, ops],  *)
(* an operation                                                            *)
(*  <<"e", address, here, mode, bytes, decoded>>  encoded, then decoded by a  *)
(*                                               second cache                *)
(*  <<"d", mode, bytes, here, result, consumed>>  decoded (negative: refused) *)
(*  <<"i">>                                       both initialised again      *)
(***************************************************************************)
EXTENDS VcdFormat, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, c, ok
vars == <<t, l, c, ok>>
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ c = CacheInit(Traces[t].near) /\ ok = "ok"

X == Traces[t]
Addr(mode, bytes, here) == AddrAt(c, X.near, X.same, mode, here, bytes, 1, Len(bytes))
Encoded(o) ==
  IF o[4] > LastMode(X.near, X.same) THEN "mode"
  ELSE \* a byte for a same mode, otherwise an integer
    LET r == Addr(o[4], o[5], o[3])
    IN IF r.st # "ok" \/ r.p # Len(o[5]) + 1 THEN "encoding"
       ELSE IF r.v # o[2] THEN "other address"
       ELSE IF o[6] # o[2] THEN "decoded differently" ELSE "ok"
Decoded(o) ==
  LET r == Addr(o[2], o[3], o[4])
  IN IF r.st = "ok" THEN (IF o[5] = r.v /\ o[6] = r.p - 1 THEN "ok" ELSE "decoded")
     ELSE IF o[5] < 0 /\ o[6] = 0 THEN "ok" ELSE "not refused"

Step == /\ ok = "ok" /\ l <= Len(X.ops)
        /\ LET o == X.ops[l]
           IN \E v \in {CASE o[1] = "e" -> Encoded(o) [] o[1] = "d" -> Decoded(o) [] o[1] = "i" -> "ok"} :
                /\ ok' = v
                /\ v # "ok" => PrintT("REJECT " \o ToJson([id |-> X.id, at |-> l, op |-> o, why |-> v]))
                /\ c' = CASE o[1] = "i" -> CacheInit(X.near)
                          [] o[1] = "e" -> CacheUpdate(c, X.near, X.same, o[2])
                          [] o[1] = "d" -> IF o[5] >= 0 THEN CacheUpdate(c, X.near, X.same, o[5]) ELSE c
        /\ l' = l + 1 /\ UNCHANGED t
Accept == /\ ok = "ok" /\ l = Len(X.ops) + 1
          /\ PrintT("ACCEPT " \o ToJson([id |-> X.id]))
          /\ l' = l + 1 /\ UNCHANGED <<t, c, ok>>
TraceNext == Step \/ Accept
=============================================================================
