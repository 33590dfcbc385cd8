-------------------------- MODULE TraceConcurrent ---------------------------
(***************************************************************************)
(* Calls of several threads in the order in which they were made.  A line is *)
(*  [id, solo, ev]: solo[t] lists what thread t's calls append and return     *)
(*  when nothing else runs in the process, ev is a sequence of <<t, text>>.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, l, k, ok
TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ k = [i \in 1..Len(Traces[t].solo) |-> 0] /\ ok = TRUE
Step == /\ ok /\ l <= Len(Traces[t].ev)
        /\ LET e == Traces[t].ev[l]
               v == k[e[1]] < Len(Traces[t].solo[e[1]]) /\ Traces[t].solo[e[1]][k[e[1]] + 1] = e[2]
           IN /\ ok' = v
              /\ ~v => PrintT("REJECT " \o ToJson([id |-> Traces[t].id, at |-> l, thread |-> e[1]]))
              /\ k' = [k EXCEPT ![e[1]] = @ + 1]
        /\ l' = l + 1 /\ UNCHANGED t
Accept == /\ ok /\ l = Len(Traces[t].ev) + 1
          /\ PrintT(IF \A i \in 1..Len(k) : k[i] = Len(Traces[t].solo[i]) THEN "ACCEPT " \o ToJson([id |-> Traces[t].id])
                    ELSE "REJECT " \o ToJson([id |-> Traces[t].id, at |-> 0, thread |-> 0]))
          /\ l' = l + 1 /\ UNCHANGED <<t, k, ok>>
TraceNext == Step \/ Accept
=============================================================================
