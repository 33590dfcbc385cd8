----------------------------- MODULE VcdEncoder -----------------------------
(***************************************************************************)
(* The streaming encoder as a state machine: StartEncoding, EncodeChunk,    *)
(* FinishEncoding.  What it is told is dictionary, format (interleaved,      *)
(* checksum, json) and whether to look for matches in the target.  Which     *)
(* instructions it chooses is left open; what every choice must satisfy is   *)
(* stated here, per appended piece of output.                                *)
(*                                                                          *)
(*   cfg   dict, inter, ck, json, match                                      *)
(*   e     the encoder: [on, n (non-empty chunks accepted since the start),  *)
(*         target (their contents), text (output since the start, for JSON)] *)
(***************************************************************************)
EXTENDS VcdDecoder
Rf == INSTANCE VcdRfc
Js == INSTANCE VcdJson

EncFresh == [on |-> FALSE, n |-> 0, target |-> <<>>, text |-> <<>>]

Ascii(s) == \A i \in 1..Len(s) : s[i] < 128

EncHeader(cfg) == IF cfg.json THEN <<>>
                  ELSE <<214, 195, 196, IF cfg.inter \/ cfg.ck THEN 83 ELSE 0, 0>>

------------------------------------------------------------------------------
(* What a call returns, which is determined.                                *)
StartRet(cfg) == cfg.json => Ascii(cfg.dict)
ChunkRet(cfg, e, data) == e.on /\ (cfg.json => Ascii(data))
FinishRet(cfg, e) == e.on

AfterStart(cfg, e, app) ==
  IF StartRet(cfg) THEN [EncFresh EXCEPT !.on = TRUE, !.text = app] ELSE e
AfterChunk(cfg, e, data, app) ==
  IF ChunkRet(cfg, e, data)
  THEN [e EXCEPT !.n = @ + (IF data = <<>> THEN 0 ELSE 1), !.target = @ \o data, !.text = @ \o app]
  ELSE e
AfterFinish(cfg, e, app) == [e EXCEPT !.on = FALSE, !.text = @ \o app]

------------------------------------------------------------------------------
(* Windows.                                                                 *)
\* A decoder that has read the file header.
Reader(cfg) == [Fresh EXCEPT !.on = TRUE, !.dict = cfg.dict, !.stage = "windows", !.ext = (cfg.inter \/ cfg.ck),
                             !.maxFile = MaxInt31, !.maxWin = MaxInt31]
RfcCfg(cfg) == [dict |-> cfg.dict, allow |-> TRUE, maxFile |-> MaxInt31, maxWin |-> MaxInt31, planned |-> -1,
                tab |-> DefaultTable, near |-> DefaultNear, same |-> DefaultSame, ext |-> cfg.inter \/ cfg.ck]

\* The instructions of the window w with header h: <<type, size, address (-1 if none), target position>>
RECURSIVE InstsFrom(_, _, _, _)
InstsFrom(env, w, s, acc) ==
  IF Len(s.win) >= env.tlen THEN acc
  ELSE LET f == NextInst(env.tab, w, s.ip, s.ie, s.pend)
           r == StepBody(env, w, s)
           ap == IF env.inter THEN f.p ELSE s.ap
           ae == IF env.inter THEN s.ie ELSE s.ae
           a == IF f.inst # COPY THEN -1
                ELSE AddrAt(s.cache, env.near, env.same, f.mode, Len(env.src) + Len(s.win), w, ap, ae).v
       IN IF r.st # "ok" THEN acc
          ELSE InstsFrom(env, w, r.s, Append(acc, <<f.inst, f.size, a, Len(s.win)>>))
EnvOf(cfg, h) == [tab |-> DefaultTable, near |-> DefaultNear, same |-> DefaultSame, src |-> h.src, tlen |-> h.tlen,
                  inter |-> h.inter]
BodyStart(h) ==
  LET i0 == h.p + h.dl   a0 == i0 + h.il
  IN [ip |-> i0, ie |-> a0 - 1, dp |-> h.p, de |-> i0 - 1, ap |-> a0, ae |-> a0 + h.al - 1,
      pend |-> NoPend, cache |-> CacheInit(DefaultNear), win |-> <<>>]
Insts(cfg, w, h) == InstsFrom(EnvOf(cfg, h), w, BodyStart(h), <<>>)

\* C12: the appended bytes are exactly one window of the requested format that decodes to the chunk.
WindowFormat(cfg, data, w) ==
  IF Len(w) = 0 THEN FALSE
  ELSE LET r == Rf!RfcWindow(RfcCfg(cfg), w, 1, <<>>)
           h == WinHeader(Reader(cfg), w, 1)
       IN /\ r.ok /\ r.p = Len(w) + 1 /\ r.win = data
          /\ h.st = "ok"
          /\ w[1] \div 8 = 0                          \* no bits that RFC 3284 or the extension does not define
          /\ Bit(w[1], 4) = cfg.ck
          /\ IF cfg.inter THEN h.dl = 0 /\ h.al = 0 ELSE ~h.inter

\* C05, encoding side
WindowChecksum(cfg, data, w) ==
  LET h == WinHeader(Reader(cfg), w, 1)
  IN h.st = "ok" /\ h.ck = (IF cfg.ck THEN Adler(data) ELSE <<>>)

------------------------------------------------------------------------------
(* The rules of VcdEngine for the block size in use, 16: copies of less than *)
(* two blocks are not worth it; for dictionaries of at most 16 blocks no      *)
(* block can be "repeated often".                                            *)
Eng == INSTANCE VcdEngine
CopiesAllowed(D, match, insts) == Eng!CopiesAllowed(D, match, insts)
NoShortCopy(insts) == Eng!NoCopyBelow(32, insts)
DictMatchesFound(dict, target, insts) == Eng!DictFound(32, dict, target, insts)
\* C22: what a window takes: headers, the literal data, per instruction an opcode and two integers at most
WindowBound == 64
InstBound == 11
Compact(cfg, data, w, insts) ==
  /\ Eng!CopiesMaximal(cfg.dict, data, insts) /\ Eng!LiteralsWhole(insts)
  /\ Len(w) <= Len(data) + WindowBound
  /\ Len(w) <= FoldLeft(LAMBDA n, x : n + InstBound + (IF x[1] = ADD THEN x[2] ELSE 0), WindowBound, insts)
TargetMatchesFound(target, insts) == Eng!TargetFound(47, target, insts)
=============================================================================
