---------------------------- MODULE MCConcurrent ----------------------------
(***************************************************************************)
(* Threads with an encoder each, sharing one initialised dictionary.  What   *)
(* is shared: the dictionary with its hash tables, and the instruction map    *)
(* that is built when it is first needed.  Accesses are steps of their own    *)
(* with a begin and an end, so that two of them can overlap; NoRace says that  *)
(* no write overlaps with another access to the same thing unless a lock       *)
(* forbids it.  Each thread makes Calls calls (start, chunks, finish); a call   *)
(* uses the map (start) or the dictionary (chunk).  The result of a call is      *)
(* what the thread's own state and the dictionary determine.                     *)
(*   Control: "flag"     the map is built without a lock                          *)
(*            "early"    other threads may use the map while it is built           *)
(*            "scratch"  chunks keep their state in the dictionary                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Threads, Calls, Control

VARIABLES pc, k, map, builder, acc, own, scratch, got, order
vars == <<pc, k, map, builder, acc, own, scratch, got, order>>
\* acc: accesses in progress, <<thread, thing, "r" or "w">>
Init == /\ pc = [t \in Threads |-> "idle"] /\ k = [t \in Threads |-> 0]
        /\ map = "none" /\ builder = 0 /\ acc = {}
        /\ own = [t \in Threads |-> 0] /\ scratch = 0 /\ got = [t \in Threads |-> <<>>] /\ order = <<>>

Begin(t, thing, how) == acc' = acc \cup {<<t, thing, how>>}
End(t) == acc' = {a \in acc : a[1] # t}
Go(t, where) == pc' = [pc EXCEPT ![t] = where]

\* the result a call must have: the number of the call and all the thread did before
Call(t) ==
  /\ pc[t] = "idle" /\ k[t] < Calls
  /\ IF k[t] = 0 THEN Go(t, "map") ELSE Go(t, "chunk")
  /\ order' = Append(order, t)
  /\ UNCHANGED <<k, map, builder, acc, own, scratch, got>>
\* the first call needs the map
NeedMap(t) ==
  /\ pc[t] = "map"
  /\ \/ /\ map = "none" /\ (Control # "flag" => builder = 0)
        /\ builder' = t /\ Begin(t, "map", "w") /\ Go(t, "build")
        /\ map' = IF Control = "early" THEN "ready" ELSE map
     \/ /\ map = "ready" /\ Begin(t, "map", "r") /\ Go(t, "use") /\ UNCHANGED <<map, builder>>
  /\ UNCHANGED <<k, own, scratch, got, order>>
Built(t) ==
  /\ pc[t] = "build" /\ map' = "ready" /\ builder' = 0 /\ End(t) /\ Go(t, "map")
  /\ UNCHANGED <<k, own, scratch, got, order>>
Used(t) ==
  /\ pc[t] = "use" /\ End(t) /\ Go(t, "ret") /\ UNCHANGED <<k, map, builder, own, scratch, got, order>>
Chunk(t) ==
  /\ pc[t] = "chunk" /\ Begin(t, "dict", IF Control = "scratch" THEN "w" ELSE "r") /\ Go(t, "match")
  /\ IF Control = "scratch" THEN scratch' = t * 10 + k[t] /\ UNCHANGED own
     ELSE own' = [own EXCEPT ![t] = t * 10 + k[t]] /\ UNCHANGED scratch
  /\ UNCHANGED <<k, map, builder, got, order>>
Match(t) ==
  /\ pc[t] = "match" /\ End(t) /\ Go(t, "ret")
  /\ own' = IF Control = "scratch" THEN [own EXCEPT ![t] = scratch] ELSE own
  /\ UNCHANGED <<k, map, builder, scratch, got, order>>
Return(t) ==
  /\ pc[t] = "ret" /\ Go(t, "idle")
  /\ got' = [got EXCEPT ![t] = Append(@, IF k[t] = 0 THEN 0 ELSE own[t])]
  /\ k' = [k EXCEPT ![t] = @ + 1]
  /\ UNCHANGED <<map, builder, acc, own, scratch, order>>
Next == \E t \in Threads : Call(t) \/ NeedMap(t) \/ Built(t) \/ Used(t) \/ Chunk(t) \/ Match(t) \/ Return(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Call(t) \/ NeedMap(t) \/ Built(t) \/ Used(t) \/ Chunk(t) \/ Match(t) \/ Return(t))

NoRace == \A a, b \in acc : a[1] # b[1] /\ a[2] = b[2] => a[3] = "r" /\ b[3] = "r"
Alone == \A t \in Threads : \A i \in 1..Len(got[t]) : got[t][i] = IF i = 1 THEN 0 ELSE t * 10 + i - 1
Finishes == <>(\A t \in Threads : k[t] = Calls)
\* calls one after the other, in every order: to be replayed
Serial == \A t \in Threads : pc[t] # "idle" => \A u \in Threads : u # t => pc[u] = "idle"
Emit == (\A t \in Threads : k[t] = Calls) => PrintT("ORDER " \o ToJson(order))
NoOrder == <<pc, k, map, builder, acc, own, scratch, got>>
=============================================================================
