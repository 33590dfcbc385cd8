----------------------------- MODULE MCDecoder ------------------------------
(***************************************************************************)
(* Model checking of the decoder specification: for every file of a bounded *)
(* set (well-formed files of both layouts, and each of them with one byte    *)
(* replaced, removed, inserted or everything after a point missing), fed in  *)
(* every chunking (chunk lengths in Steps, and all that is left), the        *)
(* streaming machine                                                        *)
(*   - accepts exactly the files that VcdRfc calls well formed, with the     *)
(*     target VcdRfc assigns (C02, C04, C05, C06, C08, C09),                 *)
(*   - is in a state that depends on the bytes received only and not on how  *)
(*     they were cut (C03, C20),                                             *)
(*   - has delivered nothing but a prefix of the target, never exceeds the   *)
(*     limits, and only ever appends (C06, C20),                             *)
(*   - refuses everything after an error (C04).                              *)
(* Control selects a deliberately wrong machine: TLC has to find it.         *)
(***************************************************************************)
EXTENDS VcdDecoder
CONSTANTS Bases,      \* which base files
          Values,     \* replacement bytes
          Steps,      \* chunk lengths
          Control     \* "none" or the name of a planted mistake
Rf == INSTANCE VcdRfc

Dict == <<10, 20, 30, 40, 50, 60>>

Hdr(v) == <<214, 195, 196, v, 0>>
\* Window with no source segment (wi 0 or 4) or with one.
Win(wi, seg, ck, tlen, data, inst, addr) ==
  LET head == EncVarint(tlen) \o <<0>> \o EncVarint(Len(data)) \o EncVarint(Len(inst)) \o EncVarint(Len(addr))
              \o (IF ck = <<>> THEN <<>> ELSE EncVarint32(ck[1], ck[2]))
  IN <<wi>> \o seg \o EncVarint(Len(head) + Len(data) + Len(inst) + Len(addr)) \o head \o data \o inst \o addr

\* ADD 2; COPY 4 in HERE mode reaching into its own output; RUN 3
StdBody == Win(1, <<4, 1>>, <<>>, 9, <<97, 98, 99>>, <<3, 36, 0, 3>>, <<2>>)
\* the same interleaved, with its checksum
IntBody ==
  LET t == <<97, 98, 97, 98, 97, 98, 99, 99, 99>>
  IN Win(5, <<4, 1>>, Adler(t), 9, <<>>, <<3, 97, 98, 36, 2, 0, 3, 99>>, <<>>)
\* interleaved: ADD 1 + COPY 4 SELF (opcode 163), then COPY 4 NEAR(0) + ADD 1 (opcode 249)
IntDouble == Win(1, <<6, 0>>, <<>>, 10, <<>>, <<163, 7, 2, 249, 0, 8>>, <<>>)
\* target as source
TgtWin == Win(2, <<3, 1>>, <<>>, 4, <<>>, <<20>>, <<0>>)
IntTgt == Win(2, <<3, 1>>, <<>>, 4, <<>>, <<20, 0>>, <<>>)
\* no source, RUN with a two-byte size
RunWin == Win(0, <<>>, <<>>, 130, <<7>>, <<0, 129, 2>>, <<>>)
\* SAME mode: COPY 4 SELF at 1, COPY 4 SAME(0) of the same address
SameWin == Win(1, <<6, 0>>, <<>>, 8, <<>>, <<20, 116>>, <<1, 1>>)

Base(i) ==
  CASE i = 1 -> Hdr(0) \o StdBody
    [] i = 2 -> Hdr(83) \o IntBody
    [] i = 3 -> Hdr(83) \o IntDouble
    [] i = 4 -> Hdr(0) \o Win(0, <<>>, <<>>, 4, <<1, 2, 3, 4>>, <<5>>, <<>>) \o TgtWin
    [] i = 5 -> Hdr(83) \o Win(0, <<>>, <<>>, 4, <<>>, <<5, 1, 2, 3, 4>>, <<>>) \o IntTgt
    [] i = 6 -> Hdr(0) \o RunWin
    [] i = 7 -> Hdr(0) \o SameWin
    [] i = 8 -> Hdr(83) \o Win(0, <<>>, <<>>, 0, <<>>, <<>>, <<>>) \o StdBody
    [] i = 9 -> <<214, 195, 196, 83, 2, 4, 3>> \o Hdr(0) \o StdBody       \* a "code table" of 9 bytes

Settings == [allow : BOOLEAN, maxFile : {8, 9, 200}, maxWin : {9, 200}]
\* All settings for the base file itself, two for its variants.
Sets(d, i) == IF d = Base(i) THEN Settings ELSE {[allow |-> TRUE, maxFile |-> 200, maxWin |-> 200]}

Variants(b) ==
  LET L == Len(b)
  IN {b}
     \cup { [b EXCEPT ![k] = v] : k \in 1..L, v \in Values }
     \cup { [b EXCEPT ![k] = (@ + 1) % 256] : k \in 1..L }
     \cup { [b EXCEPT ![k] = (@ + 255) % 256] : k \in 1..L }
     \cup { SubSeq(b, 1, k - 1) \o SubSeq(b, k + 1, L) : k \in 1..L }
     \cup { Append(b, v) : v \in Values }

VARIABLES d,        \* the file
          pos,      \* how much of it has been supplied
          m,        \* the machine
          out,      \* what has been delivered
          bad,      \* a call has failed
          opt
vars == <<d, pos, m, out, bad, opt>>

Mean == Rf!Meaning(d, [dict |-> Dict, allow |-> opt.allow, maxFile |-> opt.maxFile, maxWin |-> opt.maxWin,
                       planned |-> -1])

Init ==
  /\ \E i \in Bases : \E x \in Variants(Base(i)) : d = x /\ opt \in Sets(x, i)
  /\ pos = 0 /\ out = <<>> /\ bad = FALSE
  /\ m = CallStart([Fresh EXCEPT !.allow = opt.allow, !.maxFile = opt.maxFile, !.maxWin = opt.maxWin], Dict).m

\* The planted mistakes.
Step(mm, x) ==
  LET r == CallChunk(mm, x)
  IN CASE Control = "none" -> r
       [] Control = "dropbuf" -> IF r.ret THEN [r EXCEPT !.m.buf = <<>>] ELSE r
       [] Control = "latelimit" -> LET q == CallChunk([mm EXCEPT !.maxFile = 1000], x)
                                   IN IF mm.on THEN [q EXCEPT !.m.maxFile = mm.maxFile] ELSE q
       [] Control = "unsticky" -> IF ~r.ret /\ mm.on THEN [r EXCEPT !.m = mm] ELSE r
       [] Control = "noreset" -> IF r.ret /\ r.m.inWin THEN [r EXCEPT !.m.pend = NoPend] ELSE r
       [] Control = "nocheck" -> CallChunk([mm EXCEPT !.ck = <<>>], x)
       [] Control = "late" -> IF ~r.ret /\ mm.on /\ mm.stage = "windows" /\ ~mm.inWin
                              THEN [ret |-> TRUE, app |-> <<>>, m |-> [mm EXCEPT !.buf = @ \o x]] ELSE r
       [] OTHER -> r

Supply(k) ==
  /\ pos + k <= Len(d)
  /\ \E r \in {Step(m, SubSeq(d, pos + 1, pos + k))} :
       /\ m' = r.m
       /\ out' = out \o r.app
       /\ bad' = (bad \/ ~r.ret)
  /\ pos' = pos + k
  /\ UNCHANGED <<d, opt>>

Next == \/ \E k \in Steps : Supply(k)
        \/ Supply(Len(d) - pos) /\ pos < Len(d)
Spec == Init /\ [][Next]_vars

AtEnd == pos = Len(d)
Verdict == AtEnd => (Mean.valid = (~bad /\ CallFinish(m).ret))
Output == AtEnd /\ ~bad /\ CallFinish(m).ret => out = Mean.target
\* Sticky: after an error the machine is off and refuses.
Sticky == bad => ~m.on /\ ~CallChunk(m, <<>>).ret /\ ~CallFinish(m).ret
\* The state is determined by the bytes received.
RECURSIVE Canon(_, _)
Canon(mm, k) == IF k > pos THEN mm ELSE Canon(CallChunk(mm, <<d[k]>>).m, k + 1)
ChunkFree ==
  LET c == Canon(CallStart([Fresh EXCEPT !.allow = opt.allow, !.maxFile = opt.maxFile, !.maxWin = opt.maxWin], Dict).m, 1)
  IN m = c
Within == /\ Len(out) <= opt.maxFile
          /\ ~bad => Len(out) = m.del /\ m.del <= m.total /\ m.total <= opt.maxFile /\ m.tlen <= opt.maxWin
\* What is kept for later is the beginning of something that can still become valid.
Prompt ==
  ~bad /\ m.on =>
    CASE m.stage = "header" -> Header(m, m.buf).st = "eod"
      [] m.stage = "table" -> m.buf = <<>>
      [] m.inWin -> m.left > 0 /\ OneWindow(m, m.buf, 1).st = "eod"
      [] OTHER -> m.buf = <<>> \/ OneWindow(m, m.buf, 1).st = "eod"
AppendOnly == [][IsPrefix(out, out') /\ (bad => bad') /\ (bad => out' = out)]_vars
=============================================================================
