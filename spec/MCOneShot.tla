----------------------------- MODULE MCOneShot -----------------------------
(***************************************************************************)
(* Every history of calls on one VCDiffEncoder: its settings may be changed  *)
(* between encodings.  What an encoding consists of is left symbolic: it is  *)
(* a function of dictionary, settings and data.  The invariant says that     *)
(* each result is the one of a fresh object with the settings in force at    *)
(* the time of the call.  The histories are printed for replay.              *)
(*                                                                          *)
(* Calls: 1..4 format flags 0, 2, 3, 4 (4 is JSON), 5/6 target matching off  *)
(* and on, 7/8 encode ASCII data, 9 encode other data, 10 encode nothing.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, Control

FlagsOf(k) == CASE k = 1 -> 0 [] k = 2 -> 2 [] k = 3 -> 3 [] OTHER -> 4
DataOf(k) == CASE k = 7 -> "a" [] k = 8 -> "b" [] k = 9 -> "x" [] OTHER -> ""

VARIABLES flags, match, made, results, path
vars == <<flags, match, made, results, path>>
NotMade == <<-1, -1>>
Init == flags = 0 /\ match = 1 /\ made = NotMade /\ results = <<>> /\ path = <<>>

Note(k, r) == path' = Append(path, <<k, r>>)
SetFlags(k) == flags' = FlagsOf(k) /\ Note(k, TRUE) /\ UNCHANGED <<match, made, results>>
SetMatch(k) == match' = k - 5 /\ Note(k, TRUE) /\ UNCHANGED <<flags, made, results>>
Outcome(f, m, s) == IF f = 4 /\ s = "x" THEN <<"refused">> ELSE <<"delta", f, m, s>>
Encode(k) ==
  LET now == IF Control = "stale" /\ made # NotMade THEN made ELSE <<flags, match>>
      o == Outcome(now[1], now[2], DataOf(k))
  IN /\ made' = now
     /\ results' = Append(results, [f |-> flags, m |-> match, s |-> DataOf(k), o |-> o])
     /\ Note(k, o # <<"refused">>)
     /\ UNCHANGED <<flags, match>>
Next == Len(path) < MaxLen /\ ((\E k \in 1..4 : SetFlags(k)) \/ (\E k \in 5..6 : SetMatch(k)) \/ (\E k \in 7..10 : Encode(k)))
Spec == Init /\ [][Next]_vars

AsFresh == \A i \in 1..Len(results) : LET r == results[i] IN r.o = Outcome(r.f, r.m, r.s)
Emit == Len(path) = MaxLen => PrintT("P " \o ToJson(path))
=============================================================================
