----------------------------- MODULE VcdDecoder -----------------------------
(***************************************************************************)
(* The streaming decoder as a state machine: one action per public call     *)
(* (StartDecoding, DecodeChunk, FinishDecoding and the three setters).       *)
(* Structured like src/vcdecoder.cc: left-over input is kept in buf, a       *)
(* window in the standard layout is decoded when all of it is there, an      *)
(* interleaved window is resumed, a custom code table is decoded by a        *)
(* nested decoder.                                                           *)
(*                                                                          *)
(* A decoder is a record, so that a nested decoder is a value as well:       *)
(*   on       decoding has been started                                      *)
(*   dict, planned, ext, near, same, tab     what is being decoded           *)
(*   stage    "header", "table" (custom code table) or "windows"             *)
(*   nest     the nested decoder in stage "table"                            *)
(*   buf      bytes received and not yet parsed                              *)
(*   out      target data decoded since the start, del of it delivered       *)
(*   done     how much of out belongs to complete windows; wins: how many    *)
(*   total    sum of the declared sizes of all windows seen                  *)
(*   inWin, src, tlen, left, pend, cache, ck     the interleaved window in   *)
(*            progress; left: bytes of its body not yet executed             *)
(*   allow, maxFile, maxWin                  the settings                    *)
(***************************************************************************)
EXTENDS VcdFormat

NoNest == <<>>

Fresh == [on |-> FALSE, dict |-> <<>>, planned |-> -1, ext |-> FALSE,
          near |-> DefaultNear, same |-> DefaultSame, tab |-> <<>>,
          stage |-> "header", nest |-> NoNest, buf |-> <<>>,
          out |-> <<>>, del |-> 0, done |-> 0, wins |-> 0, total |-> 0,
          inWin |-> FALSE, src |-> <<>>, tlen |-> 0, left |-> 0, pend |-> NoPend,
          cache |-> <<>>, ck |-> <<>>,
          allow |-> TRUE, maxFile |-> 67108864, maxWin |-> 67108864]

\* Forget everything except the settings.
Wiped(m) == [Fresh EXCEPT !.allow = m.allow, !.maxFile = m.maxFile, !.maxWin = m.maxWin]

\* tab = <<>> stands for the default table, which keeps states small.
TabOf(m) == IF m.tab = <<>> THEN DefaultTable ELSE m.tab

------------------------------------------------------------------------------
(* Window headers.                                                          *)

TooLarge(m, tlen) ==
  \/ tlen > m.maxWin
  \/ m.planned >= 0 /\ tlen > m.planned - m.total
  \/ m.total > m.maxFile
  \/ tlen > m.maxFile - m.total

\* Reads one integer field after another; stops at the first problem.
Field(d, r) ==
  IF r.st # "ok" THEN r
  ELSE LET x == Varint(d, r.p, Len(d))
       IN IF x.st = "ok" THEN [st |-> "ok", p |-> x.p, v |-> Append(r.v, x.v)]
          ELSE [r EXCEPT !.st = x.st]

\* The header of the window at position p of d, as far as it is there.
WinHeader(m, d, p) ==
  LET no(st) == [st |-> st]
      wi == d[p]
      fromSrc == Bit(wi, 1)
      fromTgt == Bit(wi, 2)
      limit == IF fromTgt THEN Len(m.out) ELSE Len(m.dict)
  IN IF fromSrc /\ fromTgt THEN no("err")
     ELSE IF fromTgt /\ ~m.allow THEN no("err")
     ELSE
     LET r0 == [st |-> "ok", p |-> p + 1, v |-> <<>>]
         r1 == IF fromSrc \/ fromTgt THEN Field(d, r0) ELSE [r0 EXCEPT !.v = <<0>>]
     IN IF r1.st # "ok" THEN no(r1.st)
        ELSE IF r1.v[1] > limit /\ (fromSrc \/ fromTgt) THEN no("err")
        ELSE
        LET r2 == IF fromSrc \/ fromTgt THEN Field(d, r1) ELSE [r1 EXCEPT !.v = <<0, 0>>]
        IN IF r2.st # "ok" THEN no(r2.st)
           ELSE IF (fromSrc \/ fromTgt) /\ (r2.v[2] > limit - r2.v[1]) THEN no("err")
           ELSE
           LET r3 == Field(d, r2)               \* length of the delta encoding
               r4 == Field(d, r3)               \* size of the target window
           IN IF r4.st # "ok" THEN no(r4.st)
              ELSE IF TooLarge(m, r4.v[4]) THEN no("err")
              ELSE IF r4.p > Len(d) THEN no("eod")
              ELSE IF d[r4.p] % 8 # 0 THEN no("err")
              ELSE
              LET r7 == Field(d, Field(d, Field(d, [r4 EXCEPT !.p = @ + 1])))
              IN IF r7.st # "ok" THEN no(r7.st)
                 ELSE
                 LET hasCk == m.ext /\ Bit(wi, 4)
                     c == IF hasCk THEN Varint32(d, r7.p, Len(d))
                          ELSE [st |-> "ok", hi |-> 0, lo |-> 0, p |-> r7.p]
                 IN IF c.st # "ok" THEN no(c.st)
                    ELSE
                    LET room == r4.v[3] - (c.p - r3.p)
                        dl == r7.v[5]   il == r7.v[6]   al == r7.v[7]
                    IN IF room < 0 \/ room - dl < 0 \/ room - dl - il < 0 \/ room - dl - il # al
                       THEN no("err")
                       ELSE [st |-> "ok", p |-> c.p,
                             src |-> IF fromSrc THEN SubSeq(m.dict, r2.v[2] + 1, r2.v[2] + r2.v[1])
                                     ELSE IF fromTgt THEN SubSeq(m.out, r2.v[2] + 1, r2.v[2] + r2.v[1])
                                     ELSE <<>>,
                             tlen |-> r4.v[4], dl |-> dl, il |-> il, al |-> al,
                             inter |-> m.ext /\ dl = 0 /\ al = 0,
                             ck |-> IF hasCk THEN <<c.hi, c.lo>> ELSE <<>>]

CheckOk(ck, win) == ck = <<>> \/ Adler(win) = ck

\* The window has been completed.
EndWin(m, win) ==
  [m EXCEPT !.out = SubSeq(@, 1, m.done) \o win, !.done = m.done + Len(win), !.wins = @ + 1,
            !.inWin = FALSE, !.src = <<>>, !.tlen = 0, !.left = 0, !.pend = NoPend,
            !.cache = <<>>, !.ck = <<>>]

\* Continues the interleaved window in progress with the bytes from position p of d.
RunInterleaved(m, d, p) ==
  LET avail == Min2(m.left, Len(d) - p + 1)
      env == [tab |-> TabOf(m), near |-> m.near, same |-> m.same, src |-> m.src,
              tlen |-> m.tlen, inter |-> TRUE]
      s0 == [ip |-> p, ie |-> p + avail - 1, dp |-> 0, de |-> 0, ap |-> 0, ae |-> 0,
             pend |-> m.pend, cache |-> m.cache, win |-> SubSeq(m.out, m.done + 1, Len(m.out))]
      r == RunBody(env, d, s0)
      left == m.left - (r.s.ip - p)
  IN IF r.st = "err" THEN [st |-> "err", m |-> m, p |-> p]
     ELSE IF r.st = "eod"
     THEN IF left > 0
          THEN [st |-> "eod", p |-> r.s.ip,
                m |-> [m EXCEPT !.out = SubSeq(@, 1, m.done) \o r.s.win, !.left = left,
                                !.pend = r.s.pend, !.cache = r.s.cache]]
          ELSE [st |-> "err", m |-> m, p |-> p]
     ELSE IF ~CheckOk(m.ck, r.s.win) \/ left # 0 \/ r.s.pend # NoPend
          THEN [st |-> "err", m |-> m, p |-> p]
          ELSE [st |-> "ok", m |-> EndWin(m, r.s.win), p |-> r.s.ip]

\* The window at position p of d.
OneWindow(m, d, p) ==
  IF m.inWin THEN RunInterleaved(m, d, p)
  ELSE LET h == WinHeader(m, d, p)
       IN IF h.st # "ok" THEN [st |-> h.st, m |-> m, p |-> p]
          ELSE IF h.inter
          THEN RunInterleaved([m EXCEPT !.inWin = TRUE, !.src = h.src, !.tlen = h.tlen,
                                        !.left = h.il, !.pend = NoPend,
                                        !.cache = CacheInit(m.near), !.ck = h.ck,
                                        !.total = @ + h.tlen], d, h.p)
          ELSE IF h.dl + h.il > Len(d) - h.p + 1 - h.al THEN [st |-> "eod", m |-> m, p |-> p]
          ELSE
          LET i0 == h.p + h.dl
              a0 == i0 + h.il
              end == a0 + h.al
              env == [tab |-> TabOf(m), near |-> m.near, same |-> m.same, src |-> h.src,
                      tlen |-> h.tlen, inter |-> FALSE]
              r == RunBody(env, d, [ip |-> i0, ie |-> a0 - 1, dp |-> h.p, de |-> i0 - 1,
                                    ap |-> a0, ae |-> end - 1, pend |-> NoPend,
                                    cache |-> CacheInit(m.near), win |-> <<>>])
          IN IF r.st # "ok" \/ ~CheckOk(h.ck, r.s.win) \/ r.s.ip # a0 \/ r.s.pend # NoPend
                \/ r.s.dp # i0 \/ r.s.ap # end
             THEN [st |-> "err", m |-> m, p |-> p]
             ELSE [st |-> "ok", m |-> EndWin([m EXCEPT !.total = @ + h.tlen], r.s.win), p |-> end]

RECURSIVE Windows(_, _, _)
Windows(m, d, p) ==
  IF p > Len(d) THEN [st |-> "ok", m |-> m, p |-> p]
  ELSE LET r == OneWindow(m, d, p)
       IN IF r.st # "ok" THEN r
          ELSE IF m.planned >= 0 /\ r.m.total = m.planned THEN r
          ELSE Windows(r.m, d, r.p)

------------------------------------------------------------------------------
(* The file header.                                                         *)
Header(m, d) ==
  LET n == Len(d)
      no(st) == [st |-> st, m |-> m, p |-> 1]
  IN IF n >= 4 /\ d[4] \notin {0, 83} THEN no("err")
     ELSE IF (n >= 1 /\ d[1] # 214) \/ (n >= 2 /\ d[2] # 195) \/ (n >= 3 /\ d[3] # 196)
     THEN no("err")
     ELSE IF n < 5 THEN no("eod")
     ELSE IF Bit(d[5], 1) THEN no("err")
     ELSE IF ~Bit(d[5], 2)
     THEN [st |-> "ok", p |-> 6, m |-> [m EXCEPT !.stage = "windows", !.ext = (d[4] = 83)]]
     ELSE IF m.planned >= 0 THEN no("err")
     ELSE LET c == Field(d, Field(d, [st |-> "ok", p |-> 6, v |-> <<>>]))
          IN IF c.st # "ok" THEN no(c.st)
             ELSE IF c.v[1] > 255 \/ c.v[2] > 255 THEN no("err")
             ELSE IF c.v[1] + c.v[2] > 254 THEN no("err")
             ELSE [st |-> "ok", p |-> c.p,
                   m |-> [m EXCEPT !.stage = "table", !.ext = (d[4] = 83),
                                   !.near = c.v[1], !.same = c.v[2],
                                   !.nest = [Fresh EXCEPT !.on = TRUE, !.dict = DefaultTable,
                                                          !.planned = 1536]]]

\* The result of a call: what it returned, what it appended, and the decoder afterwards.
RECURSIVE Chunk(_, _)

\* Everything from the current stage on, with d the bytes to be parsed from position p.
RECURSIVE Parse(_, _, _)
Parse(m, d, p) ==
  CASE m.stage = "header" ->
         LET h == Header(m, d)
         IN IF h.st = "ok" THEN Parse(h.m, d, h.p) ELSE h
    [] m.stage = "table" ->
         LET c == Chunk(m.nest, SubSeq(d, p, Len(d)))
         IN IF ~c.ret THEN [st |-> "err", m |-> m, p |-> p]
            ELSE IF Len(c.m.out) < 1536
            THEN [st |-> "eod", m |-> [m EXCEPT !.nest = c.m], p |-> Len(d) + 1]
            ELSE IF ~TableValid(c.m.out, LastMode(m.near, m.same))
            THEN [st |-> "err", m |-> m, p |-> p]
            ELSE Parse([m EXCEPT !.stage = "windows", !.nest = NoNest, !.tab = c.m.out],
                       d, Len(d) + 1 - Len(c.m.buf))
    [] OTHER -> Windows(m, d, p)

Chunk(m, data) ==
  LET d == m.buf \o data
      r == Parse(m, d, 1)
  IN IF r.st = "err"
     THEN \* Complete windows of this chunk have been delivered if target data need not be kept.
          [ret |-> FALSE, m |-> Wiped(m),
           app |-> IF m.allow \/ m.planned >= 0 THEN <<>>
                   ELSE SubSeq(r.m.out, m.del + 1, r.m.done)]
     ELSE [ret |-> TRUE,
           m |-> [r.m EXCEPT !.buf = SubSeq(d, r.p, Len(d)), !.del = Len(r.m.out)],
           app |-> SubSeq(r.m.out, m.del + 1, Len(r.m.out))]

Complete(m) ==
  CASE m.stage = "header" -> m.buf = <<>>
    [] m.stage = "table" -> FALSE
    [] OTHER -> ~m.inWin /\ m.buf = <<>>

------------------------------------------------------------------------------
(* The public calls.  Each yields [ret, app, m].                            *)
NoOut(m, r) == [ret |-> r, app |-> <<>>, m |-> m]

CallStart(m, dict) ==
  IF m.on THEN NoOut(m, TRUE)                   \* refused; the return type is void
  ELSE NoOut([Wiped(m) EXCEPT !.on = TRUE, !.dict = dict], TRUE)

CallChunk(m, data) == IF ~m.on THEN NoOut(Wiped(m), FALSE) ELSE Chunk(m, data)

CallFinish(m) == IF ~m.on THEN NoOut(Wiped(m), FALSE) ELSE NoOut(Wiped(m), Complete(m))

CallSetMaxFile(m, v) == NoOut([m EXCEPT !.maxFile = v], TRUE)

\* v = -1 stands for any value above 2^31-1.
CallSetMaxWin(m, v) == IF v < 0 THEN NoOut(m, FALSE) ELSE NoOut([m EXCEPT !.maxWin = v], TRUE)

CallSetAllow(m, b) == IF m.on THEN NoOut(m, TRUE) ELSE NoOut([m EXCEPT !.allow = b], TRUE)

\* VCDiffDecoder::Decode: everything in one call.
CallDecode(m, dict, data) ==
  LET c == Chunk([Wiped(m) EXCEPT !.on = TRUE, !.dict = dict], data)
  IN IF ~c.ret THEN c ELSE [c EXCEPT !.ret = Complete(c.m), !.m = Wiped(c.m)]
=============================================================================
