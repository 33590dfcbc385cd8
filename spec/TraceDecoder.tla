---------------------------- MODULE TraceDecoder ----------------------------
(***************************************************************************)
(* Trace validation: call histories recorded from the implementation, one   *)
(* per line of the file named by the environment variable TRACE.  Each line *)
(* is  [id |-> .., ev |-> << [op, ..arguments.., ret, app], ... >>]  with    *)
(* ret what the call returned and app what it appended.                     *)
(*                                                                          *)
(* Judge says what is decided:                                              *)
(*   exact    every call returns and appends what VcdDecoder says            *)
(*   accept   whatever VcdDecoder accepts as complete is accepted, with the  *)
(*            same output (nothing is said about the rest)                   *)
(*   reject   whatever VcdDecoder refuses is not accepted at its end         *)
(*   prompt   a call that VcdDecoder refuses is refused (not a later one)       *)
(*   returns  every call returned, having delivered no more than allowed     *)
(***************************************************************************)
EXTENDS VcdDecoder, Json, IOUtils
CONSTANT Judge

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t,      \* which trace
          l,      \* next event
          m,      \* the machine
          same,   \* in this decoding all calls so far returned and appended the same
          fine,   \* in this decoding the implementation has refused nothing so far
          got,    \* how much the implementation has delivered in this decoding
          ok      \* no event has been rejected
vars == <<t, l, m, same, fine, got, ok>>

TraceInit == t \in 1..Len(Traces) /\ l = 1 /\ m = Fresh /\ same = TRUE /\ fine = TRUE /\ got = 0 /\ ok = TRUE

\* What the specification says about an event.
Result(e) ==
  CASE e.op = "start" -> CallStart(m, e.data)
    [] e.op = "chunk" -> CallChunk(m, e.data)
    [] e.op = "finish" -> CallFinish(m)
    [] e.op = "maxfile" -> CallSetMaxFile(m, e.n)
    [] e.op = "maxwin" -> CallSetMaxWin(m, e.n)
    [] e.op = "allow" -> CallSetAllow(m, e.n = 1)
    [] e.op = "new" -> NoOut(Fresh, TRUE)
    [] e.op = "decode" -> [CallDecode(Fresh, e.dict, e.data) EXCEPT !.m = m]

Ends(e) == e.op \in {"finish", "decode"}

\* The event agrees in every respect.  What a call that fails has already delivered is left open.
Agrees(e, r) ==
  /\ e.ret = r.ret
  /\ IF r.ret THEN e.app = r.app
     ELSE e.op = "chunk" /\ m.on => IsPrefix(e.app, r.app) \/ IsPrefix(r.app, e.app)
  /\ (e.op = "chunk" /\ ~m.on) => e.app = <<>>

Explains(e, r) ==
  CASE Judge = "exact" -> Agrees(e, r)
    [] Judge = "accept" -> (Ends(e) /\ r.ret) => (e.ret /\ (IF e.op = "decode" THEN e.app = r.app ELSE same))
    [] Judge = "reject" -> (Ends(e) /\ ~r.ret) => ~(e.ret /\ (e.op = "decode" \/ fine))
    [] Judge = "prompt" -> (e.op = "chunk" /\ m.on /\ ~r.ret) => ~e.ret
    [] Judge = "returns" -> (e.op = "chunk" /\ Len(e.app) > 0) => got + Len(e.app) <= Max2(m.maxFile, got)

Step(name) ==
  /\ ok /\ l <= Len(Traces[t].ev)
  /\ Traces[t].ev[l].op = name
  /\ \E e \in {Traces[t].ev[l]} :
     \E r \in {Result(e)} :
       /\ m' = r.m
       /\ IF name = "start" /\ ~m.on THEN same' = TRUE /\ fine' = TRUE /\ got' = 0
          ELSE /\ same' = (same /\ (name = "chunk" => Agrees(e, r)))
               /\ fine' = (fine /\ (name = "chunk" => e.ret))
               /\ got' = IF name = "chunk" THEN got + Len(e.app) ELSE got
       /\ IF Explains(e, r) THEN ok' = TRUE
          ELSE /\ ok' = FALSE
               /\ PrintT("REJECT " \o ToJson([id |-> Traces[t].id, at |-> l, op |-> name,
                                              specret |-> r.ret, specapp |-> r.app, ret |-> e.ret, app |-> e.app]))
  /\ l' = l + 1
  /\ UNCHANGED t

TStart == Step("start")
TChunk == Step("chunk")
TFinish == Step("finish")
TMaxFile == Step("maxfile")
TMaxWin == Step("maxwin")
TAllow == Step("allow")
TNew == Step("new")
TDecode == Step("decode")
Accept == /\ ok /\ l = Len(Traces[t].ev) + 1
          /\ PrintT("ACCEPT " \o ToJson([id |-> Traces[t].id]))
          /\ l' = l + 1 /\ UNCHANGED <<t, m, same, fine, got, ok>>
TraceNext == TStart \/ TChunk \/ TFinish \/ TMaxFile \/ TMaxWin \/ TAllow \/ TNew \/ TDecode \/ Accept
=============================================================================
