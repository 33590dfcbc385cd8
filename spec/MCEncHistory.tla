---------------------------- MODULE MCEncHistory ----------------------------
(***************************************************************************)
(* Every history of encoder calls up to MaxLen, on one object.  The encoder *)
(* is modelled with its writer (what a window is made of is left symbolic:  *)
(* a chunk's window is a function of the chunk and of nothing else); the     *)
(* invariant says that the output since the last start is the one a fresh    *)
(* encoder yields for the same chunks.  The histories are printed with the   *)
(* results the calls must have, for replay.                                  *)
(*                                                                          *)
(* Calls: 1 start, 2/3 chunks of ASCII, 4 chunk with other bytes, 5 empty    *)
(* chunk, 6 finish.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxLen, JsonFmt, DictAscii, Control

Calls == 1..6
ChunkOf(c) == CASE c = 2 -> <<"a">> [] c = 3 -> <<"b">> [] c = 4 -> <<"x">> [] OTHER -> <<>>
IsAscii(s) == "x" \notin {s[i] : i \in 1..Len(s)}

VARIABLES on, pend, called, added, text, chunks, path
vars == <<on, pend, called, added, text, chunks, path>>

Init == on = FALSE /\ pend = <<>> /\ called = FALSE /\ added = FALSE /\ text = <<>> /\ chunks = <<>> /\ path = <<>>

\* the writer: JSON text is made of tokens, otherwise of windows
Bracket == IF JsonFmt THEN <<"[">> ELSE <<>>
Header == IF JsonFmt THEN <<>> ELSE <<"header">>
Win(add, s) == IF ~JsonFmt THEN <<s>> ELSE (IF add THEN <<",">> ELSE <<>>) \o <<s>>

Note(c, r) == path' = Append(path, <<c, r>>)

Start ==
  IF JsonFmt /\ ~DictAscii
  THEN Note(1, FALSE) /\ UNCHANGED <<on, pend, called, added, text, chunks>>
  ELSE /\ on' = TRUE /\ chunks' = <<>>
       /\ pend' = (IF Control = "keepwriter" /\ path # <<>> THEN pend ELSE Bracket)
       /\ called' = (IF Control = "keepwriter" THEN called ELSE FALSE)
       /\ added' = (IF Control = "keepwriter" THEN added ELSE FALSE)
       /\ text' = Header
       /\ Note(1, TRUE)

Chunk(c) ==
  LET s == ChunkOf(c)
      ok == on /\ (JsonFmt => IsAscii(s))
  IN IF ~ok THEN Note(c, FALSE) /\ UNCHANGED <<on, pend, called, added, text, chunks>>
     ELSE IF s = <<>> THEN Note(c, TRUE) /\ UNCHANGED <<on, pend, called, added, text, chunks>>
     ELSE /\ text' = text \o pend \o Win(added, s)
          /\ pend' = <<>> /\ called' = TRUE /\ added' = TRUE
          /\ chunks' = Append(chunks, s)
          /\ Note(c, TRUE) /\ UNCHANGED on

Finish ==
  IF ~on THEN Note(6, FALSE) /\ UNCHANGED <<on, pend, called, added, text, chunks>>
  ELSE /\ text' = (IF JsonFmt /\ called THEN Append(text, "]") ELSE text)
       /\ on' = (Control = "stayson")
       /\ Note(6, TRUE) /\ UNCHANGED <<pend, called, added, chunks>>

Next == Len(path) < MaxLen /\ (Start \/ (\E c \in 2..5 : Chunk(c)) \/ Finish)
Spec == Init /\ [][Next]_vars

\* What a fresh encoder would have written for these chunks.
RECURSIVE Wins(_, _)
Wins(cs, i) == IF i > Len(cs) THEN <<>> ELSE Win(i > 1, cs[i]) \o Wins(cs, i + 1)
Alone == IF JsonFmt THEN (IF chunks = <<>> THEN <<>> ELSE <<"[">> \o Wins(chunks, 1))
         ELSE Header \o Wins(chunks, 1)
started == \E i \in 1..Len(path) : path[i] = <<1, TRUE>>
finished == Len(path) > 0 /\ started /\ ~on
OnlyOwnChunks ==
  started => text = (IF JsonFmt /\ ~on /\ chunks # <<>> THEN Append(Alone, "]") ELSE Alone)
\* Out of order calls are refused.
InOrder == \A i \in 1..Len(path) :
  LET before == SubSeq(path, 1, i - 1)
      last == {j \in 1..(i - 1) : path[j][1] \in {1, 6} /\ path[j][2]}
      open == last # {} /\ path[CHOOSE j \in last : \A k \in last : k <= j][1] = 1
  IN path[i][1] \in 2..6 /\ ~open => ~path[i][2]

Emit == Len(path) = MaxLen => PrintT("P " \o ToJson(path))
=============================================================================
