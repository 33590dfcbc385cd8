----------------------------- MODULE MCHistory ------------------------------
(***************************************************************************)
(* Every history of public calls on one decoder object, up to a bound, over *)
(* a small alphabet: two dictionaries, pieces of files (standard layout,     *)
(* interleaved layout cut inside a body, custom code table cut inside the    *)
(* table, target-as-source window, malformed bytes), finishing, and all      *)
(* settings - in any order, also where they make no sense.                   *)
(*                                                                          *)
(* The machine state alone forgets, on purpose, everything about decodings   *)
(* that have ended; an implementation might not.  The history variable was   *)
(* therefore remembers in which situation the decoding before the present    *)
(* one ended, and is part of the VIEW: TLC extends histories after each      *)
(* kind of ending.  Every transition is printed with the shortest history    *)
(* leading to it and what each call must return and append; the harness      *)
(* replays it followed by a probe (three complete decodings), whose          *)
(* expected results depend on the settings only (C10).                       *)
(***************************************************************************)
EXTENDS VcdDecoder, Json
CONSTANTS MaxLen,       \* length of histories
          MaxEpochs,    \* decodings begun
          Calls,        \* which calls (indices into Alphabet)
          Control

DictA == <<97, 98, 99, 100, 101, 102, 103, 104>>
DictB == <<104, 103, 102, 101, 100, 99, 98, 97>>

Win(wi, seg, ck, tlen, data, inst, addr) ==
  LET head == EncVarint(tlen) \o <<0>> \o EncVarint(Len(data)) \o EncVarint(Len(inst)) \o EncVarint(Len(addr))
              \o (IF ck = <<>> THEN <<>> ELSE EncVarint32(ck[1], ck[2]))
  IN <<wi>> \o seg \o EncVarint(Len(head) + Len(data) + Len(inst) + Len(addr)) \o head \o data \o inst \o addr

\* standard layout: ADD 2, COPY 4 SELF(1), COPY 4 NEAR(1 slot 0) +1
StdWin == Win(1, <<8, 0>>, <<>>, 10, <<65, 66>>, <<3, 20, 52>>, <<1, 1>>)
\* the same interleaved; cut after ADD and in the middle of a two-instruction opcode
IntWin == Win(1, <<8, 0>>, <<>>, 15, <<>>, <<3, 65, 66, 163, 67, 2, 52, 1, 249, 0, 68>> \o <<>>, <<>>)
\* 2 + (1 + 4) + 4 + (4 + 1) = 16
IntWinOk == Win(1, <<8, 0>>, <<>>, 16, <<>>, <<3, 65, 66, 163, 67, 2, 52, 1, 249, 0, 68>>, <<>>)
TgtWin == Win(2, <<3, 1>>, <<>>, 4, <<>>, <<20>>, <<0>>)
\* the default table with opcode 2 (ADD 1) changed into ADD 7, in two windows, the second one interleaved
TabDelta1 == <<214, 195, 196, 83, 0>> \o Win(1, EncVarint(1536) \o <<0>>, <<>>, 514, <<>>, <<19>> \o EncVarint(514), <<0>>)
TabDelta2 == Win(1, EncVarint(1536) \o <<0>>, <<>>, 1022, <<>>, <<2, 7>> \o <<19>> \o EncVarint(1021) \o EncVarint(515), <<>>)
TabDelta == TabDelta1 \o TabDelta2
\* in the file with that table: ADD 7 by opcode 2, COPY 4 SELF(2), COPY 4 by mode 6 (near, not same)
TabFileHead == <<214, 195, 196, 83, 2, 6, 1>> \o TabDelta
TabCut == Len(TabFileHead) - 3      \* behind the ADD: part of the table has been delivered
TabWin == Win(1, <<8, 0>>, <<>>, 15, <<>>, <<2, 1, 2, 3, 4, 5, 6, 7, 20, 2, 100, 1>>, <<>>)

H0 == <<214, 195, 196, 0, 0>>
HS == <<214, 195, 196, 83, 0>>
Cut(s, k) == << SubSeq(s, 1, k), SubSeq(s, k + 1, Len(s)) >>

\* The alphabet.
Alphabet == <<
  [op |-> "start", data |-> DictA],                             \* 1
  [op |-> "start", data |-> DictB],                             \* 2
  [op |-> "finish"],                                            \* 3
  [op |-> "chunk", data |-> <<>>],                              \* 4
  [op |-> "chunk", data |-> H0 \o Cut(StdWin, 7)[1]],           \* 5: header, cut in a window header
  [op |-> "chunk", data |-> Cut(StdWin, 7)[2]],                 \* 6
  [op |-> "chunk", data |-> HS \o Cut(IntWinOk, 14)[1]],        \* 7: cut between the two halves of an opcode
  [op |-> "chunk", data |-> Cut(IntWinOk, 14)[2]],              \* 8
  [op |-> "chunk", data |-> SubSeq(TabFileHead, 1, TabCut)],    \* 9: cut inside the embedded table
  [op |-> "chunk", data |-> SubSeq(TabFileHead, TabCut + 1, Len(TabFileHead)) \o Cut(TabWin, 16)[1]],  \* 10
  [op |-> "chunk", data |-> Cut(TabWin, 16)[2]],                \* 11
  [op |-> "chunk", data |-> TgtWin],                            \* 12
  [op |-> "chunk", data |-> StdWin],                            \* 13
  [op |-> "chunk", data |-> <<255>>],                           \* 14: wrong everywhere
  [op |-> "allow", n |-> 0],                                    \* 15
  [op |-> "allow", n |-> 1],                                    \* 16
  [op |-> "maxfile", n |-> 24],                                 \* 17
  [op |-> "maxfile", n |-> 67108864],                           \* 18
  [op |-> "maxwin", n |-> 15],                                  \* 19
  [op |-> "maxwin", n |-> -1],                                  \* 20
  [op |-> "maxwin", n |-> 67108864],                            \* 21
  [op |-> "chunk", data |-> H0 \o StdWin \o TgtWin],            \* 22
  [op |-> "chunk", data |-> HS \o SubSeq(IntWinOk, 1, 12)],     \* 23: cut inside the data of an ADD
  [op |-> "maxfile", n |-> 9]                                   \* 24
>>

Do(mm, i) ==
  LET e == Alphabet[i]
      r == CASE e.op = "start" -> CallStart(mm, e.data)
             [] e.op = "chunk" -> CallChunk(mm, e.data)
             [] e.op = "finish" -> CallFinish(mm)
             [] e.op = "maxfile" -> CallSetMaxFile(mm, e.n)
             [] e.op = "maxwin" -> CallSetMaxWin(mm, e.n)
             [] e.op = "allow" -> CallSetAllow(mm, e.n = 1)
  IN CASE Control = "keeptable" -> IF r.m.on THEN r ELSE [r EXCEPT !.m.tab = mm.tab]
       [] Control = "losesettings" -> IF ~r.m.on THEN [r EXCEPT !.m.maxFile = 67108864] ELSE r
       [] OTHER -> r

VARIABLES m, was, epochs, path
vars == <<m, was, epochs, path>>
View == <<m, was, epochs>>

\* The situation of a decoding in progress, for was.
Situation(mm) ==
  << mm.stage, mm.inWin, mm.pend, mm.buf # <<>>, mm.tab # <<>>, mm.wins > 0, mm.dict = DictA >>

\* The probe: three complete decodings.
Probe == <<2, 23, 14, 3, 1, 7, 8, 12, 3, 1, 5, 6, 12, 13, 3, 2, 9, 10, 11, 3>>
RECURSIVE Play(_, _, _)
Play(mm, calls, acc) ==
  IF calls = <<>> THEN acc
  ELSE LET r == Do(mm, Head(calls)) IN Play(r.m, Tail(calls), Append(acc, <<Head(calls), IF r.ret THEN 1 ELSE 0, r.app>>))
SettingsOf(mm) == [Fresh EXCEPT !.allow = mm.allow, !.maxFile = mm.maxFile, !.maxWin = mm.maxWin]

Init == /\ m = Fresh /\ was = <<>> /\ epochs = 0 /\ path = <<>>
        /\ PrintT("ALPHABET " \o ToJson([a |-> Alphabet, probe |-> Probe]))
        /\ \A al \in BOOLEAN : \A mf \in {9, 24, 67108864} : \A mw \in {15, 67108864} :
             PrintT("PROBE " \o ToJson([allow |-> al, maxFile |-> mf, maxWin |-> mw,
                      res |-> Play([Fresh EXCEPT !.allow = al, !.maxFile = mf, !.maxWin = mw], Probe, <<>>)]))

Call(i) ==
  /\ i \in Calls /\ Len(path) < MaxLen
  /\ (Alphabet[i].op = "start" /\ ~m.on) => epochs < MaxEpochs
  /\ \E r \in {Do(m, i)} :
       /\ m' = r.m
       /\ epochs' = IF r.m.on /\ ~m.on THEN epochs + 1 ELSE epochs
       /\ was' = IF m.on /\ ~r.m.on THEN <<Situation(m), Alphabet[i].op, r.ret>> ELSE was
       /\ path' = Append(path, <<i, IF r.ret THEN 1 ELSE 0, r.app>>)
       /\ PrintT("T " \o ToJson([p |-> path', on |-> r.m.on, allow |-> r.m.allow, maxFile |-> r.m.maxFile, maxWin |-> r.m.maxWin]))

Start == \E i \in 1..2 : Call(i)
Finish == Call(3)
Chunk1 == \E i \in (4..14) \cup {22, 23} : Call(i)
Settings == \E i \in (15..21) \cup {24} : Call(i)
Next == Start \/ Finish \/ Chunk1 \/ Settings
Spec == Init /\ [][Next]_vars

\* A decoder that is not decoding is a fresh one with the same settings.
NothingLeft == ~m.on => m = SettingsOf(m)
\* Settings change only by the setters, output is never taken back.
SettingsKept == [][ (\E i \in {1, 2, 3} \cup (4..14) \cup {22, 23} : Last(path')[1] = i) => SettingsOf(m) = SettingsOf(m') ]_vars
Refused == [][ (~m.on /\ ~m'.on /\ Last(path')[1] \in {3} \cup (4..14)) => (Last(path')[2] = 0 /\ Last(path')[3] = <<>>) ]_vars
=============================================================================
