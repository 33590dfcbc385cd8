----------------------------- MODULE VcdFormat -----------------------------
(***************************************************************************)
(* The vocabulary of the VCDIFF format (RFC 3284) and of the open-vcdiff    *)
(* 'S' extension: integers, checksums, code tables, the address cache, the  *)
(* instruction stream and the effect of instructions.  Everything here is a *)
(* pure operator; the state machines are in VcdDecoder and VcdEncoder.      *)
(*                                                                          *)
(* Bytes are the integers 0..255 and byte strings are sequences of them.    *)
(* TLC integers have 32 bits, hence the care taken not to leave the range   *)
(* and the representation of 32-bit checksums as pairs of 16-bit halves.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

MaxInt31 == 2147483647

\* x & 2^k # 0, for the flag bytes
Bit(x, w) == ((x \div w) % 2) = 1

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

------------------------------------------------------------------------------
(* Variable-length integers, most significant group first.                  *)

\* Reads an integer at position p of d without looking beyond position e.
RECURSIVE VarintFrom(_, _, _, _)
VarintFrom(d, p, e, acc) ==
  IF p > e THEN [st |-> "eod", v |-> 0, p |-> p]
  ELSE LET r == acc + (d[p] % 128)
       IN IF d[p] < 128 THEN [st |-> "ok", v |-> r, p |-> p + 1]
          ELSE IF r > 16777215            \* (2^31-1) \div 128: the next group does not fit
               THEN [st |-> "err", v |-> 0, p |-> p]
               ELSE VarintFrom(d, p + 1, e, r * 128)
Varint(d, p, e) == VarintFrom(d, p, e, 0)

\* The same for the unsigned 32-bit checksum, which is read as a 63-bit integer
\* and then checked for its range.  hi, lo: the low 32 bits; bits: the number of
\* significant bits read so far.
BitLen(g) == IF g >= 64 THEN 7 ELSE IF g >= 32 THEN 6 ELSE IF g >= 16 THEN 5 ELSE
             IF g >= 8 THEN 4 ELSE IF g >= 4 THEN 3 ELSE IF g >= 2 THEN 2 ELSE
             IF g >= 1 THEN 1 ELSE 0
RECURSIVE Varint32From(_, _, _, _, _, _)
Varint32From(d, p, e, hi, lo, bits) ==
  IF p > e THEN [st |-> "eod", hi |-> 0, lo |-> 0, p |-> p]
  ELSE LET g  == d[p] % 128
           l2 == lo * 128 + g
           h2 == (hi * 128 + l2 \div 65536) % 65536
           b2 == IF bits = 0 THEN BitLen(g) ELSE bits + 7
       IN IF d[p] < 128
          THEN IF b2 > 32 THEN [st |-> "err", hi |-> 0, lo |-> 0, p |-> p]
               ELSE [st |-> "ok", hi |-> h2, lo |-> l2 % 65536, p |-> p + 1]
          ELSE IF b2 > 56 THEN [st |-> "err", hi |-> 0, lo |-> 0, p |-> p]
               ELSE Varint32From(d, p + 1, e, h2, l2 % 65536, b2)
Varint32(d, p, e) == Varint32From(d, p, e, 0, 0, 0)

\* The shortest encoding of v.
RECURSIVE EncTail(_)
EncTail(v) == IF v = 0 THEN <<>> ELSE Append(EncTail(v \div 128), 128 + (v % 128))
EncVarint(v) == Append(EncTail(v \div 128), v % 128)

\* An encoding of v with k redundant leading groups (RFC 3284 does not forbid them).
Pad128(k) == [i \in 1..k |-> 128]
EncVarintPadded(v, k) == Pad128(k) \o EncVarint(v)

\* hi*2^16+lo as five groups, with leading zero groups removed.
EncVarint32(hi, lo) ==
  LET g == << hi \div 4096, (hi \div 32) % 128, (hi % 32) * 4 + lo \div 16384,
              (lo \div 128) % 128, lo % 128 >>
      nz == { i \in 1..5 : g[i] # 0 }
      f == IF nz = {} THEN 5 ELSE CHOOSE i \in nz : \A j \in nz : i <= j
  IN [ i \in 1..(6 - f) |-> IF f + i - 1 = 5 THEN g[5] ELSE 128 + g[f + i - 1] ]

------------------------------------------------------------------------------
(* Adler-32 started from zero, as <<b, a>>.                                 *)
AdlerMod == 65521
Adler(s) ==
  FoldLeft(LAMBDA c, x : LET a == (c[2] + x) % AdlerMod IN << (c[1] + a) % AdlerMod, a >>,
           <<0, 0>>, s)

------------------------------------------------------------------------------
(* Code tables.  A table is the sequence of its 1536 bytes in the order in   *)
(* which they are embedded in delta files: all first instruction types, all  *)
(* second types, first sizes, second sizes, first modes, second modes.       *)
NOOP == 0   ADD == 1   RUN == 2   COPY == 3

Inst1(t, op) == t[op + 1]
Inst2(t, op) == t[op + 257]
Size1(t, op) == t[op + 513]
Size2(t, op) == t[op + 769]
Mode1(t, op) == t[op + 1025]
Mode2(t, op) == t[op + 1281]

\* Opcode by opcode: <<inst1, size1, mode1, inst2, size2, mode2>>, RFC 3284 section 5.6.
DefaultEntry(op) ==
  IF op = 0 THEN <<RUN, 0, 0, NOOP, 0, 0>>
  ELSE IF op <= 18 THEN <<ADD, op - 1, 0, NOOP, 0, 0>>
  ELSE IF op <= 162 THEN
         LET m == (op - 19) \div 16   k == (op - 19) % 16
         IN <<COPY, IF k = 0 THEN 0 ELSE k + 3, m, NOOP, 0, 0>>
  ELSE IF op <= 234 THEN
         LET k == op - 163
         IN <<ADD, ((k % 12) \div 3) + 1, 0, COPY, (k % 3) + 4, k \div 12>>
  ELSE IF op <= 246 THEN
         LET k == op - 235
         IN <<ADD, (k % 4) + 1, 0, COPY, 4, (k \div 4) + 6>>
  ELSE <<COPY, 4, op - 247, ADD, 1, 0>>

TableFromEntries(entry(_)) ==
  TLCEval(
    LET es == TLCEval([ op \in 0..255 |-> entry(op) ])
        \* record field order inst1 inst2 size1 size2 mode1 mode2
        fld == <<1, 4, 2, 5, 3, 6>>
    IN [ i \in 1..1536 |-> es[(i - 1) % 256][fld[((i - 1) \div 256) + 1]] ])

DefaultTable == TableFromEntries(DefaultEntry)

DefaultNear == 4
DefaultSame == 3
LastMode(nn, ns) == nn + ns + 1

\* A usable table: known instruction types and modes only, nothing odd about
\* NOOPs and modes, and every instruction expressible with an explicit size.
TableValid(t, maxMode) ==
  /\ \A op \in 0..255 :
       /\ Inst1(t, op) <= 3 /\ Inst2(t, op) <= 3
       /\ Mode1(t, op) <= maxMode /\ Mode2(t, op) <= maxMode
       /\ Inst1(t, op) = NOOP => Size1(t, op) = 0
       /\ Inst2(t, op) = NOOP => Size2(t, op) = 0
       /\ Inst1(t, op) # COPY => Mode1(t, op) = 0
       /\ Inst2(t, op) # COPY => Mode2(t, op) = 0
  /\ LET have == { <<Inst1(t, op), Mode1(t, op)>> :
                     op \in { o \in 0..255 : Size1(t, o) = 0 /\ Inst2(t, o) = NOOP } }
     IN /\ <<ADD, 0>> \in have /\ <<RUN, 0>> \in have
        /\ \A m \in 0..maxMode : <<COPY, m>> \in have

------------------------------------------------------------------------------
(* The address cache (RFC 3284 section 5.1 - 5.3).                          *)
(* same is a partial function: absent entries hold 0.                       *)
SameBlock == 256   \* entries per same mode
CacheInit(nn) == [near |-> [i \in 1..nn |-> 0], next |-> 0, same |-> <<>>]

SameAt(c, i) == IF i \in DOMAIN c.same THEN c.same[i] ELSE 0

CacheUpdate(c, nn, ns, a) ==
  [ near |-> IF nn = 0 THEN c.near ELSE [c.near EXCEPT ![c.next + 1] = a],
    next |-> IF nn = 0 THEN 0 ELSE (c.next + 1) % nn,
    same |-> IF ns = 0 THEN c.same ELSE ((a % (ns * SameBlock)) :> a) @@ c.same ]

IsSameMode(nn, mode) == mode >= 2 + nn

\* Reads the address of a COPY executed at position here of source + target.
AddrAt(c, nn, ns, mode, here, d, p, e) ==
  IF p > e THEN [st |-> "eod", v |-> 0, p |-> p]
  ELSE LET r == IF IsSameMode(nn, mode)
                THEN [st |-> "ok", v |-> SameAt(c, (mode - 2 - nn) * SameBlock + d[p]), p |-> p + 1]
                ELSE LET x == Varint(d, p, e)
                     IN IF x.st # "ok" THEN x
                        ELSE IF mode = 0 THEN x
                        ELSE IF mode = 1 THEN [x EXCEPT !.v = here - x.v]
                        ELSE LET n == c.near[mode - 1]
                             IN IF x.v > MaxInt31 - n THEN [x EXCEPT !.st = "err"]
                                ELSE [x EXCEPT !.v = n + x.v]
       IN IF r.st # "ok" THEN r
          ELSE IF r.v < 0 \/ r.v >= here THEN [r EXCEPT !.st = "err"] ELSE r

------------------------------------------------------------------------------
(* The instruction stream.                                                  *)
(* pend is the opcode whose second instruction has not been executed, or -1. *)
NoPend == -1

RECURSIVE Fetch(_, _, _, _, _)
Fetch(t, d, p, e, pend) ==
  IF pend # NoPend
  THEN [st |-> "ok", inst |-> Inst2(t, pend), size |-> Size2(t, pend), mode |-> Mode2(t, pend),
        p |-> p, pend |-> NoPend]
  ELSE IF p > e
  THEN [st |-> "eod", inst |-> NOOP, size |-> 0, mode |-> 0, p |-> p, pend |-> NoPend]
  ELSE LET op == d[p]
           pn == IF Inst2(t, op) # NOOP THEN op ELSE NoPend
       IN IF Inst1(t, op) = NOOP THEN Fetch(t, d, p + 1, e, pn)
          ELSE [st |-> "ok", inst |-> Inst1(t, op), size |-> Size1(t, op), mode |-> Mode1(t, op),
                p |-> p + 1, pend |-> pn]

\* The next instruction with its size.  If the size is cut off, nothing is consumed.
NextInst(t, d, p, e, pend) ==
  LET f == Fetch(t, d, p, e, pend)
  IN IF f.st # "ok" \/ f.size # 0 THEN f
     ELSE LET x == Varint(d, f.p, e)
          IN IF x.st = "ok" THEN [f EXCEPT !.size = x.v, !.p = x.p]
             ELSE IF x.st = "eod" THEN [f EXCEPT !.st = "eod", !.p = p, !.pend = pend]
             ELSE [f EXCEPT !.st = "err"]

------------------------------------------------------------------------------
(* The effect of COPY: n bytes of source \o window, starting at address a   *)
(* (counted from 0); what is not there yet is produced by the copy itself.   *)
CopyBytes(src, win, a, n) ==
  LET S == Len(src)   here == S + Len(win)
  IN IF a + n <= S THEN SubSeq(src, a + 1, a + n)
     ELSE IF a >= S /\ a + n <= here THEN SubSeq(win, a - S + 1, a - S + n)
     ELSE TLCEval([ i \in 1..n |->
              LET x == a + i - 1
                  y == IF x < here THEN x ELSE a + ((x - a) % (here - a))
              IN IF y < S THEN src[y + 1] ELSE win[y - S + 1] ])

\* A source segment is a sequence src.  One that is too long to be written out is given by its
\* length slen and its position sbase in a dictionary whose byte number i is WideByte(i).
WideByte(i) == ((i % 251) + (i \div 65536) * 7 + ((i \div 256) % 13)) % 256
SrcLen(env) == IF "slen" \in DOMAIN env THEN env.slen ELSE Len(env.src)
CopyOf(env, win, a, n) ==
  IF "slen" \notin DOMAIN env THEN CopyBytes(env.src, win, a, n)
  ELSE LET here == env.slen + Len(win)
       IN TLCEval([ i \in 1..n |->
              LET x == a + i - 1
                  y == IF x < here THEN x ELSE a + ((x - a) % (here - a))
              IN IF y < env.slen THEN WideByte(env.sbase + y) ELSE win[y - env.slen + 1] ])

RunBytes(b, n) == TLCEval([i \in 1..n |-> b])

\* What a body is decoded with: code table, cache sizes, source segment, target length.
\* The position record s: ip, dp, ap - where instructions, data and addresses are read
\* (one and the same position in the interleaved layout) - ie, de, ae their ends,
\* pend, cache, and win, the part of the window produced so far.
StepBody(env, d, s) ==
  LET f == NextInst(env.tab, d, s.ip, s.ie, s.pend)
  IN IF f.st = "eod" THEN [st |-> "eod", s |-> [s EXCEPT !.ip = f.p, !.pend = f.pend]]
     ELSE IF f.st = "err" THEN [st |-> "err", s |-> s]
     ELSE IF f.size > env.tlen - Len(s.win) THEN [st |-> "err", s |-> s]
     ELSE LET dp == IF env.inter THEN f.p ELSE s.dp
              ap == IF env.inter THEN f.p ELSE s.ap
              de == IF env.inter THEN s.ie ELSE s.de
              ae == IF env.inter THEN s.ie ELSE s.ae
              \* after the operand: the new data/address positions
              Done(w, dp2, ap2, c2) ==
                [st |-> "ok",
                 s |-> [s EXCEPT !.ip = IF env.inter THEN Max2(dp2, ap2) ELSE f.p,
                                 !.dp = dp2, !.ap = ap2, !.pend = f.pend,
                                 !.cache = c2, !.win = s.win \o w]]
          IN CASE f.inst = ADD ->
                    IF f.size > de - dp + 1 THEN [st |-> "eod", s |-> s]
                    ELSE Done(SubSeq(d, dp, dp + f.size - 1), dp + f.size, ap, s.cache)
               [] f.inst = RUN ->
                    IF dp > de THEN [st |-> "eod", s |-> s]
                    ELSE Done(RunBytes(d[dp], f.size), dp + 1, ap, s.cache)
               [] f.inst = COPY ->
                    LET here == SrcLen(env) + Len(s.win)
                        x == AddrAt(s.cache, env.near, env.same, f.mode, here, d, ap, ae)
                    IN IF x.st # "ok" THEN [st |-> x.st, s |-> s]
                       ELSE Done(CopyOf(env, s.win, x.v, f.size), dp, x.p,
                                 CacheUpdate(s.cache, env.near, env.same, x.v))

\* Executes instructions until the window is complete or something is missing or wrong.
RECURSIVE RunBody(_, _, _)
RunBody(env, d, s) ==
  IF Len(s.win) >= env.tlen THEN [st |-> "ok", s |-> s]
  ELSE LET r == StepBody(env, d, s)
       IN IF r.st # "ok" THEN r ELSE RunBody(env, d, r.s)
=============================================================================
