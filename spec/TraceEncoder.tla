---------------------------- MODULE TraceEncoder ----------------------------
(***************************************************************************)
(* Trace validation for the encoder.  A line of the file named by TRACE is  *)
(*   [id, dict, inter, ck, json, match, ev |-> << [op, data, ret, app], ..>>]*)
(* Judge says which rules are decided (a set):                              *)
(*   calls    what each call returns; refused calls append nothing, nor do   *)
(*            empty chunks                                                   *)
(*   format   header and windows (C12)                                       *)
(*   round    the whole output of an encoding decodes to the target (C01)    *)
(*   ck       checksums (C05)                                                *)
(*   copies   copies are allowed ones (C13)                                  *)
(*   found    long matches are found, no short copies (C14)                  *)
(*   compact  sizes, copies as long as can be (C22)                          *)
(*   json     the JSON text of a finished encoding (C17)                     *)
(***************************************************************************)
EXTENDS VcdEncoder, Json, IOUtils
CONSTANT Judge

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, l, e, ok
vars == <<t, l, e, ok>>

TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ e = EncFresh /\ ok = "ok"

Verdict(cfg, x) ==
  LET on(r) == r \in Judge
      window == x.op = "chunk" /\ x.ret /\ ChunkRet(cfg, e, x.data) /\ x.data # <<>> /\ ~cfg.json
      h == WinHeader(Reader(cfg), x.app, 1)
      parsed == window /\ x.app # <<>> /\ h.st = "ok"
      insts == Insts(cfg, x.app, h)
  IN CASE on("calls") /\ x.op = "start" /\ x.ret # StartRet(cfg) -> "start returned wrongly"
       [] on("calls") /\ x.op = "chunk" /\ x.ret # ChunkRet(cfg, e, x.data) -> "chunk returned wrongly"
       [] on("calls") /\ x.op = "finish" /\ x.ret # FinishRet(cfg, e) -> "finish returned wrongly"
       [] on("calls") /\ ~x.ret /\ x.app # <<>> -> "refused call appended"
       [] on("calls") /\ x.op = "chunk" /\ x.data = <<>> /\ x.app # <<>> -> "empty chunk appended"
       [] on("format") /\ ~cfg.json /\ x.op = "start" /\ x.app # EncHeader(cfg) -> "file header"
       [] on("format") /\ ~cfg.json /\ x.op = "finish" /\ x.app # <<>> -> "finish appended"
       [] on("format") /\ window /\ ~WindowFormat(cfg, x.data, x.app) -> "window format"
       [] on("ck") /\ window /\ ~WindowChecksum(cfg, x.data, x.app) -> "checksum"
       [] on("copies") /\ window /\ ~parsed -> "no window"
       [] on("copies") /\ window /\ parsed /\ ~(/\ CopiesAllowed(Len(cfg.dict), cfg.match, insts)
                                                /\ Rf!RfcWindow(RfcCfg(cfg), x.app, 1, <<>>).win = x.data) -> "copy"
       [] on("compact") /\ window /\ parsed /\ ~Compact(cfg, x.data, x.app, insts) -> "not compact"
       [] on("found") /\ window /\ parsed /\ ~NoShortCopy(insts) -> "short copy"
       [] on("found") /\ window /\ parsed /\ ~DictMatchesFound(cfg.dict, x.data, insts) -> "missed match in dictionary"
       [] on("found") /\ window /\ parsed /\ cfg.match /\ ~TargetMatchesFound(x.data, insts) -> "missed match in target"
       [] on("round") /\ ~cfg.json /\ x.op = "finish" /\ x.ret /\ e.on /\
            ~(LET mm == Rf!Meaning(e.text \o x.app, Rf!DefaultOpt(cfg.dict)) IN mm.valid /\ mm.target = e.target) -> "round trip"
       [] on("json") /\ cfg.json /\ x.op = "finish" /\ x.ret /\ e.on /\ ~Js!Denotes(e.text \o x.app, cfg.dict, e.target) -> "json"
       [] on("json") /\ cfg.json /\ ~x.ret /\ x.app # <<>> -> "output of a refused call"
       [] on("json") /\ cfg.json /\ x.op = "start" /\ x.ret # StartRet(cfg) -> "dictionary check"
       [] on("json") /\ cfg.json /\ x.op = "chunk" /\ e.on /\ x.ret # ChunkRet(cfg, e, x.data) -> "chunk check"
       [] OTHER -> "ok"



Step(name) ==
  /\ ok = "ok" /\ l <= Len(Traces[t].ev) /\ Traces[t].ev[l].op = name
  /\ \E x \in {Traces[t].ev[l]} :
     \E cfg \in {[dict |-> Traces[t].dict, inter |-> Traces[t].inter, ck |-> Traces[t].ck, json |-> Traces[t].json,
                  match |-> Traces[t].match]} :
     \E v \in {Verdict(cfg, x)} :
       /\ ok' = v
       /\ e' = CASE name = "start" -> AfterStart(cfg, e, x.app)
                 [] name = "chunk" -> AfterChunk(cfg, e, x.data, x.app)
                 [] name = "finish" -> AfterFinish(cfg, e, x.app)
       /\ v # "ok" => PrintT("REJECT " \o ToJson([id |-> Traces[t].id, at |-> l, op |-> name, why |-> v]))
  /\ l' = l + 1 /\ UNCHANGED t

TStart == Step("start")
TChunk == Step("chunk")
TFinish == Step("finish")
Accept == /\ ok = "ok" /\ l = Len(Traces[t].ev) + 1
          /\ PrintT("ACCEPT " \o ToJson([id |-> Traces[t].id]))
          /\ l' = l + 1 /\ UNCHANGED <<t, e, ok>>
TraceNext == TStart \/ TChunk \/ TFinish \/ Accept
=============================================================================
