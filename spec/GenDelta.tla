----------------------------- MODULE GenDelta ------------------------------
(***************************************************************************)
(* Generator of behaviours of the decoder specification.  A case is made    *)
(* by *writing* a delta file: windows of either layout, any source segment, *)
(* instructions chosen opcode by opcode from the code table in force, any    *)
(* address mode, explicit and implicit sizes, redundant integer groups,      *)
(* checksums, custom code tables and cache sizes - and then, in some         *)
(* families, by breaking exactly one thing.  The meaning is computed twice:  *)
(* by the writer itself (win), and by VcdRfc from the bytes alone; and the   *)
(* streaming machine VcdDecoder yields, byte by byte, what must have been    *)
(* accepted and delivered.  TLC checks that the three agree and prints the   *)
(* case for replay into the implementation.                                 *)
(***************************************************************************)
EXTENDS VcdDecoder, Json
CONSTANTS Seed, From, To, Fam
Rf == INSTANCE VcdRfc
Rn == INSTANCE Prng
R(path, n) == Rn!R(path, n)
Pick(path, seq) == Rn!Pick(path, seq)
Chance(path, n) == Rn!Chance(path, n)

(* Families.                                                                 *)
Broken == Fam \in {"mal", "badtable", "ckmal", "widemal"}
Wide == Fam \in {"wide", "widemal"}          \* a dictionary whose addresses need five groups
HasTable == Fam \in {"table", "badtable"}
Checked == Fam \in {"ck", "ckmal", "ckbig"}          \* every window carries a checksum
------------------------------------------------------------------------------
(* Data: cheap, aperiodic enough that a wrong position shows.                *)
DataByte(k, i) ==
  LET j == i % 4096
  IN ((j * j * (3 + (k % 7)) + j * (1 + ((k \div 7) % 97)) + (i \div 16) * (1 + (k % 5)) + k) % 251)
     + (IF (i + k) % 13 = 0 THEN 5 ELSE 0)
Data(k, n) == TLCEval([i \in 1..n |-> DataByte(k, i)])
\* few distinct bytes, for runs and repetitions
Data2(k, n) == TLCEval([i \in 1..n |-> (DataByte(k, i) % 3) * 7])

\* A dictionary whose addresses need up to four groups: rotations of one block.
BigBlock == Data(4242, 4096)
RECURSIVE Blocks(_, _)
Blocks(lo, hi) ==
  IF lo = hi THEN LET r == (lo * 37) % 4096 IN SubSeq(BigBlock, r + 1, 4096) \o SubSeq(BigBlock, 1, r)
  ELSE LET mid == (lo + hi) \div 2 IN Blocks(lo, mid) \o Blocks(mid + 1, hi)
BigDict == IF Fam = "bigdict" THEN TLCEval(Blocks(1, 540)) ELSE <<>>
BigLen == 540 * 4096
WideLen == 268505456

------------------------------------------------------------------------------
(* Custom code tables: a valid table with a random remainder, permuted.      *)
TableEntry(c, maxMode, k) ==
  IF k = 0 THEN <<RUN, 0, 0, NOOP, 0, 0>>
  ELSE IF k = 1 THEN <<ADD, 0, 0, NOOP, 0, 0>>
  ELSE IF k <= maxMode + 2 THEN <<COPY, 0, k - 2, NOOP, 0, 0>>
  ELSE LET i1 == Pick(<<c, k, 70>>, <<ADD, RUN, COPY, COPY, ADD, NOOP>>)
           i2 == Pick(<<c, k, 71>>, <<NOOP, NOOP, ADD, RUN, COPY, COPY>>)
           sz(x, i) == IF i = NOOP THEN 0
                       ELSE IF Chance(<<c, k, x>>, 8) THEN 0
                       ELSE IF Chance(<<c, k, x + 1>>, 8) THEN 200 + R(<<c, k, x + 2>>, 56)
                       ELSE 1 + R(<<c, k, x + 3>>, 20)
           md(x, i) == IF i = COPY THEN R(<<c, k, x>>, maxMode + 1) ELSE 0
       IN <<i1, sz(72, i1), md(80, i1), i2, sz(84, i2), md(90, i2)>>

CustomTable(c, near, same) ==
  LET a == 2 * R(<<c, 60>>, 128) + 1
      b == R(<<c, 61>>, 256)
      \* the opcode that gets entry k is (a*k + b) % 256; inv is the inverse function
      inv == TLCEval([op \in 0..255 |-> CHOOSE k \in 0..255 : (a * k + b) % 256 = op])
      E(op) == TableEntry(c, LastMode(near, same), inv[op])
  IN TableFromEntries(E)

CacheSizes(c) ==
  Pick(<<c, 50>>, << <<4, 3>>, <<0, 0>>, <<1, 0>>, <<0, 1>>, <<2, 5>>, <<6, 2>>, <<17, 9>>, <<0, 4>>,
                     <<5, 0>>, <<200, 30>>, <<30, 200>>, <<252, 0>>, <<0, 252>>, <<126, 126>>,
                     <<3, 3>>, <<1, 1>>, <<251, 1>>, <<100, 2>> >>)

------------------------------------------------------------------------------
(* Integers in the file; f is the name of the field, mu the mutation.        *)
NoMu == [f |-> "", k |-> "", v |-> 0]
MaxV == <<135, 255, 255, 255, 127>>       \* 2^31-1
OverV == <<136, 128, 128, 128, 0>>        \* 2^31
FieldInt(mu, f, x, pad) ==
  IF mu.f # f THEN EncVarintPadded(x, pad)
  ELSE CASE mu.k = "add" -> EncVarint(Max2(0, x + mu.v))
         [] mu.k = "set" -> EncVarint(mu.v)
         [] mu.k = "max" -> MaxV
         [] mu.k = "over" -> OverV
         [] mu.k = "pad" -> EncVarintPadded(x, mu.v)
         [] OTHER -> EncVarintPadded(x, pad)

------------------------------------------------------------------------------
(* Writing the body of a window.                                            *)
(* W: c, w (case and window number), tab, near, same, src, inter, budget     *)
(* s: data, inst, addr (sections; everything in inst if interleaved), win,   *)
(*    cache                                                                  *)
PadOf(path) == IF Chance(Append(path, 5), 14) THEN Pick(Append(path, 6), <<1, 1, 2, 3, 5, 9, 20>>) ELSE 0

SizeOf(W, s, j, h, last) ==
  IF ~last /\ Chance(<<W.c, W.w, j, h, 20>>, 30) THEN 0
  ELSE IF Fam = "bigtarget" /\ j = 1
       THEN Pick(<<W.c, W.w, j, h, 23>>, <<1, 3000, 4000, 4096, 5552, 8191, 8192, 8193, 16383, 16384, 20000, 33000, 66000>>)
  ELSE IF W.big /\ (Chance(<<W.c, W.w, j, h, 22>>, 3) \/ Fam = "huge")
       THEN Pick(<<W.c, W.w, j, h, 23>>, IF Fam = "huge" THEN (IF W.c % 2 = 0 THEN <<20000, 30000, 35536, 40000>>
                                                                              ELSE <<65535, 65536, 65537, 70000, 140000>>)
                                                   ELSE <<5552, 5553, 16383, 16384, 16385, 40000, 65535, 65536, 70000>>)
       ELSE Pick(<<W.c, W.w, j, h, 21>>, <<1, 2, 3, 5, 6, 7, 17, 18, 19, 20, 40, 100, 127, 128, 129, 255, 256>>)

\* An address in 0..here-1.
AddrOf(W, s, j, h) ==
  LET S == SrcLen(W)   here == S + Len(s.win)
      q == R(<<W.c, W.w, j, h, 30>>, 9)
      \* within the last few bytes before x
      below(x) == Max2(0, x - 1 - R(<<W.c, W.w, j, h, 31>>, 12))
  IN CASE q = 0 -> 0
       [] q = 1 -> here - 1
       [] q = 2 -> below(here)
       [] q = 3 /\ S > 0 -> below(S)
       [] q = 4 /\ S < here -> S
       [] q = 5 /\ S < here -> S + R(<<W.c, W.w, j, h, 32>>, here - S)
       [] q = 6 /\ S > 0 -> R(<<W.c, W.w, j, h, 33>>, S)
       [] OTHER -> R(<<W.c, W.w, j, h, 34>>, here)

\* The operand bytes of a COPY and the address they stand for.
Operand(W, s, mode, j, h) ==
  LET here == SrcLen(W) + Len(s.win)
      want == AddrOf(W, s, j, h)
      pad == PadOf(<<W.c, W.w, j, h, 40>>)
      bad == W.mu.f = "addr" /\ W.mu.k = "step" /\ W.mu.v = j
      badk == R(<<W.c, W.w, j, h, 45>>, 6)
  IN IF IsSameMode(W.near, mode)
     THEN \* prefer a slot that has been written
          LET base == (mode - 2 - W.near) * 256
              used == { i \in DOMAIN s.cache.same : i >= base /\ i < base + 256 }
              b == IF used # {} /\ ~Chance(<<W.c, W.w, j, h, 41>>, 4)
                   THEN Pick(<<W.c, W.w, j, h, 44>>, SetToSeq(used)) - base
                   ELSE R(<<W.c, W.w, j, h, 42>>, 256)
          IN [bytes |-> <<b>>, a |-> SameAt(s.cache, base + b)]
     ELSE IF mode = 0 THEN
            IF bad THEN [bytes |-> Pick(<<W.c, 46>>, <<EncVarint(here), EncVarint(here + 1), MaxV, OverV,
                                                       EncVarint(here + 127), EncVarint(here + 128)>>),
                         a |-> 0]
            ELSE [bytes |-> EncVarintPadded(want, pad), a |-> want]
     ELSE IF mode = 1 THEN
            IF bad THEN [bytes |-> Pick(<<W.c, 46>>, <<EncVarint(0), EncVarint(here + 1), MaxV, OverV,
                                                       EncVarint(here + 127), EncVarint(0)>>),
                         a |-> 0]
            ELSE [bytes |-> EncVarintPadded(here - want, pad), a |-> want]
     ELSE LET n == s.cache.near[mode - 1]
              a == IF want >= n THEN want ELSE n + R(<<W.c, W.w, j, h, 43>>, here - n)
          IN IF bad THEN [bytes |-> Pick(<<W.c, 46>>, <<EncVarint(here - n), EncVarint(here - n + 1), MaxV,
                                                        OverV, MaxV, EncVarint(here - n)>>), a |-> 0]
             ELSE [bytes |-> EncVarintPadded(a - n, pad), a |-> a]

\* One instruction: h = 1 or 2 says which half of opcode number j it is.
Half(W, s, inst, tabSize, mode, j, h, last) ==
  IF inst = NOOP THEN s
  ELSE
  LET size == IF tabSize # 0 THEN tabSize ELSE SizeOf(W, s, j, h, last)
      szb == IF tabSize # 0 THEN <<>> ELSE EncVarintPadded(size, PadOf(<<W.c, W.w, j, h, 10>>))
      k == R(<<W.c, W.w, j, h, 11>>, 1000)
  IN CASE inst = ADD ->
            LET b == IF W.zero THEN RunBytes(0, size) ELSE IF W.low THEN Data2(k, size) ELSE Data(k, size)
            IN [s EXCEPT !.inst = @ \o szb \o (IF W.inter THEN b ELSE <<>>),
                         !.data = IF W.inter THEN @ ELSE @ \o b,
                         !.win = @ \o b]
       [] inst = RUN ->
            LET b == IF W.zero THEN 0 ELSE k % 256
            IN [s EXCEPT !.inst = @ \o szb \o (IF W.inter THEN <<b>> ELSE <<>>),
                         !.data = IF W.inter THEN @ ELSE Append(@, b),
                         !.win = @ \o RunBytes(b, size)]
       [] inst = COPY ->
            LET o == Operand(W, s, mode, j, h)
            IN [s EXCEPT !.inst = @ \o szb \o (IF W.inter THEN o.bytes ELSE <<>>),
                         !.addr = IF W.inter THEN @ ELSE @ \o o.bytes,
                         !.win = @ \o CopyOf(W, s.win, o.a, size),
                         !.cache = CacheUpdate(@, W.near, W.same, o.a)]

\* Can this opcode be used now?  A COPY needs something before it, and the last
\* opcode of a window must produce something.
Usable(W, s, op, last) ==
  LET i1 == Inst1(W.tab, op)   i2 == Inst2(W.tab, op)
      here == SrcLen(W) + Len(s.win)
  IN /\ here = 0 => (i1 \in {ADD, RUN} \/ (i1 = NOOP /\ i2 # COPY))
     /\ (last \/ here = 0) => ~(i1 = NOOP /\ i2 = NOOP)
     /\ Size1(W.tab, op) + Size2(W.tab, op) <= W.budget

\* The opcode number j: the forced one, or a random one, or else a plain ADD.
PlainAdd(W) == CHOOSE op \in 0..255 : Inst1(W.tab, op) = ADD /\ Inst2(W.tab, op) = NOOP /\ Size1(W.tab, op) = 0
OpFor(W, s, j, last) ==
  LET c1 == R(<<W.c, W.w, j, 1>>, 256)
      c2 == R(<<W.c, W.w, j, 2>>, 256)
      \* opcodes that refer to a slot of the same cache that has been written
      slots == { i \div 256 : i \in DOMAIN s.cache.same }
      hit == { op \in 0..255 : /\ Inst1(W.tab, op) = COPY /\ Inst2(W.tab, op) = NOOP /\ IsSameMode(W.near, Mode1(W.tab, op))
                               /\ (Mode1(W.tab, op) - 2 - W.near) \in slots }
  IN IF HasTable /\ j > 1 /\ Chance(<<W.c, W.w, j, 3>>, 2) /\ hit # {} THEN Pick(<<W.c, W.w, j, 4>>, SetToSeq(hit))
     ELSE IF (j = W.forceAt \/ Fam = "huge") /\ Usable(W, s, W.force, last) THEN W.force
     ELSE IF Usable(W, s, c1, last) THEN c1
     ELSE IF Usable(W, s, c2, last) THEN c2
     ELSE PlainAdd(W)


RECURSIVE Body(_, _, _, _)
Body(W, s, j, n) ==
  IF j > n THEN s
  ELSE LET last == j = n
           op == OpFor(W, s, j, last)
           s1 == [s EXCEPT !.inst = Append(@, op)]
           s2 == Half(W, s1, Inst1(W.tab, op), Size1(W.tab, op), Mode1(W.tab, op), j, 1, last \/ SrcLen(W) + Len(s.win) = 0)
           s3 == Half(W, s2, Inst2(W.tab, op), Size2(W.tab, op), Mode2(W.tab, op), j, 2, last)
       IN Body(W, s3, j + 1, n)

\* The bytes of a window around its sections.
Assemble(W, wi, seglen, segpos, s, ckOn, tlen) ==
  LET mu == W.mu
      p(f) == PadOf(<<W.c, W.w, f>>)
      dl == Len(s.data)   il == Len(s.inst)   al == Len(s.addr)
      \* move a boundary without changing the total
      sh == IF mu.f = "shift" THEN mu.v ELSE 0
      ck0 == Adler(s.win)
      ck == IF mu.f = "ck"
            THEN CASE mu.k = "hi" -> <<(ck0[1] + mu.v) % 65536, ck0[2]>>
                   [] mu.k = "lo" -> <<ck0[1], (ck0[2] + mu.v) % 65536>>
                   [] mu.k = "swap" -> <<ck0[2], ck0[1]>>
                   [] mu.k = "ones" -> <<65535, 65535>>
                   [] mu.k = "modulus" -> <<(ck0[1] + 65521) % 65536, (ck0[2] + 65521) % 65536>>
                   [] OTHER -> <<0, 0>>
            ELSE ck0
      head == FieldInt(mu, "tlen", tlen, p(101))
              \o << IF mu.f = "dind" THEN mu.v ELSE 0 >>
              \o FieldInt(mu, "dl", IF sh = 1 THEN dl + 1 ELSE IF sh = -1 /\ dl > 0 THEN dl - 1 ELSE dl, p(102))
              \o FieldInt(mu, "il", IF sh = 1 THEN Max2(0, il - 1) ELSE IF sh = -1 /\ dl > 0 THEN il + 1
                                    ELSE IF sh = 2 THEN il + 1 ELSE IF sh = -2 THEN Max2(0, il - 1) ELSE il, p(103))
              \o FieldInt(mu, "al", IF sh = 2 THEN Max2(0, al - 1) ELSE IF sh = -2 THEN al + 1 ELSE al, p(104))
              \o (IF ckOn THEN (IF mu.f = "ck" /\ mu.k = "over" THEN <<144, 128, 128, 128, 0>>  \* 2^32
                                ELSE Pad128(p(108)) \o EncVarint32(ck[1], ck[2])) ELSE <<>>)
      total == Len(head) + dl + il + al
  IN << wi >>
     \o (IF wi % 4 # 0 THEN FieldInt(mu, "seglen", seglen, p(105)) \o FieldInt(mu, "segpos", segpos, p(106)) ELSE <<>>)
     \o FieldInt(mu, "dlen", total, p(107))
     \o head \o s.data \o s.inst \o s.addr

------------------------------------------------------------------------------
(* A custom code table as an embedded delta file.                           *)
\* literal pieces between a and b (0-based, b exclusive), or copies where equal to the default
RECURSIVE TabRuns(_, _, _, _)
TabRuns(t, a, b, acc) ==     \* sequence of <<same?, from, to>>
  IF a >= b THEN acc
  ELSE LET eq == t[a + 1] = DefaultTable[a + 1]
           n == Len(acc)
       IN TabRuns(t, a + 1, b,
                  IF n > 0 /\ acc[n][1] = eq THEN [acc EXCEPT ![n] = <<eq, acc[n][2], a + 1>>]
                  ELSE Append(acc, <<eq, a, a + 1>>))

TabWindow(W, t, a, b, style, ckOn) ==
  LET s0 == [data |-> <<>>, inst |-> <<>>, addr |-> <<>>, win |-> <<>>, cache |-> CacheInit(4)]
      lit(s, x, y) == [s EXCEPT !.inst = @ \o <<1>> \o EncVarint(y - x) \o (IF W.inter THEN SubSeq(t, x + 1, y) ELSE <<>>),
                                !.data = IF W.inter THEN @ ELSE @ \o SubSeq(t, x + 1, y),
                                !.win = @ \o SubSeq(t, x + 1, y)]
      cpy(s, x, y) == [s EXCEPT !.inst = @ \o <<19>> \o EncVarint(y - x) \o (IF W.inter THEN EncVarint(x) ELSE <<>>),
                                !.addr = IF W.inter THEN @ ELSE @ \o EncVarint(x),
                                !.win = @ \o SubSeq(t, x + 1, y)]
      s == IF style = 0 THEN lit(s0, a, b)
           ELSE FoldLeft(LAMBDA q, r : IF r[1] THEN cpy(q, r[2], r[3]) ELSE lit(q, r[2], r[3]), s0, TabRuns(t, a, b, <<>>))
  IN Assemble(W, (IF style = 0 THEN 0 ELSE 1) + (IF ckOn THEN 4 ELSE 0), 1536, 0, s, ckOn, b - a)

TableDelta(c, t) ==
  LET ext == Chance(<<c, 62>>, 2)
      cuts == Pick(<<c, 64>>, << <<0, 1536>>, <<0, 1536>>, <<0, 256, 1536>>, <<0, 1, 700, 1536>>,
                                 <<0, 512, 1024, 1280, 1535, 1536>> >>)
      win(i) == LET W == [c |-> c, w |-> 90 + i, mu |-> NoMu, inter |-> ext /\ Chance(<<c, 65, i>>, 2)]
                IN TabWindow(W, t, cuts[i], cuts[i + 1], R(<<c, 66, i>>, 2), ext /\ Chance(<<c, 67, i>>, 2))
  IN <<214, 195, 196, IF ext THEN 83 ELSE 0, 0>>
     \o FoldLeft(LAMBDA acc, i : acc \o win(i), <<>>, [i \in 1..(Len(cuts) - 1) |-> i])

\* Break a table in one place: the result may still be valid; TableValid decides.
BreakTable(c, t, near, same) ==
  LET op == R(<<c, 55>>, 256)
      what == R(<<c, 56>>, 9)
      mx == LastMode(near, same)
      single(i, m) == CHOOSE o \in 0..255 : Inst1(t, o) = i /\ Mode1(t, o) = m /\ Size1(t, o) = 0 /\ Inst2(t, o) = NOOP
  IN CASE what = 0 -> [t EXCEPT ![op + 1] = 4]
       [] what = 1 -> [t EXCEPT ![op + 257] = 4 + R(<<c, 57>>, 252)]
       [] what = 2 -> [t EXCEPT ![single(ADD, 0) + 513] = 1]
       [] what = 3 -> [t EXCEPT ![single(RUN, 0) + 257] = ADD]
       [] what = 4 -> [t EXCEPT ![single(COPY, R(<<c, 58>>, mx + 1)) + 513] = 4]
       [] what = 5 -> [t EXCEPT ![single(COPY, mx) + 1025] = Min2(255, mx + 1)]
       [] what = 6 -> [t EXCEPT ![op + 1281] = 1 + R(<<c, 59>>, 255)]
       [] what = 7 -> [t EXCEPT ![op + 769] = 1]
       [] what = 8 -> [t EXCEPT ![op + 1025] = 1 + R(<<c, 59>>, 255)]

------------------------------------------------------------------------------
(* A whole case.                                                            *)
\* only zeros, whose checksum is 0
Zero(c) == Checked /\ Chance(<<c, 9>>, 8)
Opts(c) ==
  LET big == Fam \in {"big", "huge", "ckbig", "bigtarget"}
      n == IF Fam = "bigdict" THEN BigLen ELSE IF Wide THEN WideLen
           ELSE IF big THEN Pick(<<c, 1>>, <<0, 200, 5000, 20000, 70000>>)
           ELSE IF HasTable /\ Chance(<<c, 7>>, 2) THEN 500 + R(<<c, 8>>, 6000)
           ELSE IF Fam = "ckmal" THEN 1 + R(<<c, 8>>, 300)
           ELSE Pick(<<c, 1>>, <<0, 1, 3, 16, 40, 100, 127, 128, 200, 300>>)
      cs == IF HasTable THEN CacheSizes(c) ELSE <<4, 3>>
      tab == IF HasTable THEN CustomTable(c, cs[1], cs[2]) ELSE DefaultTable
  IN [ c |-> c,
       dict |-> IF Fam = "bigdict" THEN BigDict ELSE IF Wide THEN <<>> ELSE IF Zero(c) THEN RunBytes(0, n) ELSE IF Chance(<<c, 2>>, 5) THEN Data2(c, n) ELSE Data(c, n),
       ext |-> Checked \/ ~Chance(<<c, 3>>, 3),
       near |-> cs[1], same |-> cs[2], tab |-> tab,
       nwin |-> IF Fam \in {"huge", "ckbig", "ckmal"} THEN 1 + R(<<c, 4>>, 2)
                ELSE IF HasTable THEN Pick(<<c, 4>>, <<1, 1, 2, 3>>)
                ELSE IF Fam = "target" THEN 2 + R(<<c, 4>>, 4)
                ELSE IF Fam = "bigtarget" THEN 2 + R(<<c, 4>>, 3)
                ELSE IF Fam = "many" THEN Pick(<<c, 4>>, <<20, 66, 130, 258>>)
                ELSE Pick(<<c, 4>>, <<0, 1, 1, 1, 2, 2, 3, 5>>),
       big |-> big \/ Fam = "bigdict" ]

\* The mutation of case c (applied in window MuWin): something in a field.
MuOf(c, nwin) ==
  LET q == R(<<c, 200>>, 24)
      pm == IF Chance(<<c, 201>>, 2) THEN 1 ELSE -1
      f == Pick(<<c, 202>>, <<"tlen", "dl", "il", "al", "seglen", "segpos", "dlen">>)
  IN IF Fam = "ckmal"
     THEN IF q < 16 THEN [f |-> "ck", k |-> Pick(<<c, 207>>, <<"hi", "lo", "swap", "zero", "over", "hi", "lo", "ones", "modulus">>),
                          v |-> Pick(<<c, 208>>, <<1, 65535, 256, 32768, 128, 16384, 2, 64>>)]
          ELSE NoMu
     ELSE IF Fam \notin {"mal", "widemal"} THEN NoMu
     ELSE CASE q \in 0..3 -> [f |-> f, k |-> "add", v |-> pm * (1 + R(<<c, 203>>, 2))]
            [] q = 4 -> [f |-> f, k |-> "max", v |-> 0]
            [] q = 5 -> [f |-> f, k |-> "over", v |-> 0]
            [] q = 6 -> [f |-> f, k |-> "pad", v |-> Pick(<<c, 204>>, <<6, 12, 30>>)]
            [] q = 7 -> [f |-> f, k |-> "set", v |-> Pick(<<c, 204>>, <<0, 1, 127, 128, 16384, 70000>>)]
            [] q \in 8..9 -> [f |-> "shift", k |-> "", v |-> Pick(<<c, 205>>, <<1, -1, 2, -2>>)]
            [] q = 10 -> [f |-> "dind", k |-> "", v |-> 1 + R(<<c, 206>>, 255)]
            [] q = 11 -> [f |-> "ck", k |-> Pick(<<c, 207>>, <<"hi", "lo", "swap", "zero", "over", "ones", "modulus">>),
                          v |-> Pick(<<c, 208>>, <<1, 65535, 256, 32768>>)]
            [] q \in 12..15 -> [f |-> "addr", k |-> "step", v |-> 1 + R(<<c, 209>>, 4)]
            [] q = 16 -> [f |-> "wi", k |-> "", v |-> R(<<c, 210>>, 256)]
            [] q = 17 -> [f |-> "cut", k |-> "", v |-> 0]           \* sections lose their last byte
            [] q = 18 -> [f |-> "grow", k |-> Pick(<<c, 211>>, <<"data", "inst", "addr">>), v |-> R(<<c, 212>>, 256)]
            [] OTHER -> NoMu

ByteMu(c, d) ==      \* a mutation of the finished file
  LET q == R(<<c, 220>>, 8)
      L == Len(d)
      k == 1 + R(<<c, 221>>, L)
      b == R(<<c, 222>>, 256)
  IN IF L = 0 THEN d
     ELSE CASE q = 0 -> SubSeq(d, 1, k - 1)
            [] q = 1 -> [d EXCEPT ![k] = b]
            [] q = 2 -> [d EXCEPT ![k] = (@ + 1) % 256]
            [] q = 3 -> [d EXCEPT ![k] = (@ + 255) % 256]
            [] q = 4 -> SubSeq(d, 1, k - 1) \o <<b>> \o SubSeq(d, k, L)
            [] q = 5 -> SubSeq(d, 1, k - 1) \o SubSeq(d, k + 1, L)
            [] q = 6 -> d \o [i \in 1..(1 + R(<<c, 223>>, 4)) |-> IF Chance(<<c, 224, i>>, 2) THEN 0 ELSE R(<<c, 225, i>>, 256)]
            [] q = 7 -> LET j == 1 + R(<<c, 226>>, Min2(L, 5)) IN [d EXCEPT ![j] = b]

RECURSIVE WindowsOf(_, _, _)
WindowsOf(o, w, acc) ==      \* acc: bytes, target, sizes
  IF w > o.nwin THEN acc
  ELSE
  LET c == o.c
      mu == IF w = 1 + R(<<c, 230>>, Max2(1, o.nwin)) THEN o.mu ELSE NoMu
      kind == IF Fam \in {"target", "bigtarget"} /\ w > 1 /\ ~Chance(<<c, w, 301>>, 4) THEN 2
              ELSE Pick(<<c, w, 300>>, IF o.allow THEN <<0, 1, 1, 1, 2>> ELSE <<0, 1, 1>>)
      from == IF kind = 2 THEN acc.target ELSE o.dict
      far == kind = 1 /\ Wide
      N == IF far THEN WideLen ELSE Len(from)
      \* whole, empty, suffix, prefix or something in the middle
      q == R(<<c, w, 302>>, 6)
      len == CASE q = 0 -> IF far THEN 268435455 + R(<<c, w, 303>>, 3) ELSE 0
               [] q \in {1, 2} -> N
               [] far /\ q = 3 -> 1 + R(<<c, w, 303>>, 70001)
               [] OTHER -> R(<<c, w, 303>>, N + 1)
      pos == CASE q = 3 -> N - len [] q = 4 -> 0
               [] far /\ q = 5 -> Min2(N - len, 268435455 + R(<<c, w, 304>>, 3))
               [] OTHER -> R(<<c, w, 304>>, N - len + 1)
      inter == o.ext /\ ~Chance(<<c, w, 305>>, 4)
      ckOn == o.ext /\ (Checked \/ Chance(<<c, w, 306>>, 2))
      src == IF kind = 0 THEN <<>> ELSE IF far THEN <<>> ELSE SubSeq(from, pos + 1, pos + len)
      empty == Chance(<<c, w, 307>>, 15)
      n == IF empty THEN 0 ELSE 1 + R(<<c, w, 308>>, IF Fam = "huge" THEN (IF c % 2 = 0 THEN 4 ELSE 1) ELSE IF o.big THEN 5 ELSE IF HasTable THEN 22 ELSE IF Fam = "many" THEN 2 ELSE 9)
      W == [c |-> c, w |-> w, tab |-> o.tab, near |-> o.near, same |-> o.same, src |-> src,
            inter |-> inter, budget |-> 600, big |-> o.big, mu |-> mu,
            zero |-> Zero(c), low |-> Chance(<<c, w, 309>>, 4),
            force |-> IF Fam \in {"huge", "bigtarget"} THEN Pick(<<c, w, 312>>, <<1, 1, 0, 19>>) ELSE c % 256,
            forceAt |-> IF Fam \in {"huge", "bigtarget"} THEN 1 ELSE 1 + R(<<c, w, 310>>, n + 1)]
           @@ (IF far THEN [slen |-> len, sbase |-> pos] ELSE <<>>)
      b == Body(W, [data |-> <<>>, inst |-> <<>>, addr |-> <<>>, win |-> <<>>, cache |-> CacheInit(o.near)], 1, n)
      cutl(x) == IF mu.f = "cut" /\ x # <<>> THEN SubSeq(x, 1, Len(x) - 1) ELSE x
      grow(x, k) == IF mu.f = "grow" /\ mu.k = k THEN Append(x, mu.v) ELSE x
      b2 == [b EXCEPT !.data = grow(IF inter THEN @ ELSE cutl(@), "data"), !.inst = grow(cutl(@), "inst"),
                      !.addr = grow(IF inter THEN @ ELSE cutl(@), "addr")]
      wi0 == kind + (IF ckOn THEN 4 ELSE 0) + (IF Chance(<<c, w, 311>>, 20) THEN 248 ELSE 0)
      wi == IF mu.f = "wi" THEN mu.v ELSE wi0
      bytes == Assemble(W, wi, len, pos, b2, ckOn, Len(b.win))
  IN WindowsOf(o, w + 1, [acc EXCEPT !.bytes = @ \o bytes, !.target = @ \o b.win,
                                     !.sizes = Append(@, Len(b.win)), !.starts = Append(@, Len(acc.bytes))])

Case(c) ==
  LET o0 == Opts(c)
      allow == ~Chance(<<c, 5>>, 5) \/ Fam \in {"target", "notarget", "bigtarget"}    \* may the writer use target windows
      o == o0 @@ [allow |-> allow, mu |-> MuOf(c, o0.nwin)]
      badCaches == Fam = "badtable" /\ Chance(<<c, 51>>, 6)
      t == IF Fam = "badtable" /\ ~badCaches THEN BreakTable(c, o.tab, o.near, o.same) ELSE o.tab
      cs == IF badCaches THEN Pick(<<c, 52>>, << <<256, 0>>, <<0, 256>>, <<255, 0>>, <<0, 255>>, <<128, 127>>,
                                               <<o.near + 1, o.same>>, <<o.near, o.same + 1>>, <<70000, 3>> >>)
            ELSE <<o.near, o.same>>
      ws == WindowsOf(o, 1, [bytes |-> <<>>, target |-> <<>>, sizes |-> <<>>, starts |-> <<>>])
      hi == (IF HasTable THEN 2 ELSE 0) + (IF Chance(<<c, 6>>, 25) THEN 252 ELSE 0)
      d0 == <<214, 195, 196, IF o.ext THEN 83 ELSE 0, hi>>
            \o (IF HasTable THEN EncVarint(cs[1]) \o EncVarint(cs[2]) \o TableDelta(c, t) ELSE <<>>)
            \o ws.bytes
      d == IF Fam \in {"mal", "widemal"} /\ o.mu = NoMu THEN ByteMu(c, d0) ELSE d0
      \* a checksummed file is decoded with another dictionary
      dict2 == IF Fam = "ckmal" /\ o.mu = NoMu
               THEN CASE c % 3 = 0 -> Tail(o.dict) \o <<o.dict[1]>>
                      [] c % 3 = 1 -> [o.dict EXCEPT ![1 + R(<<c, 250>>, Len(o.dict))] = (@ + 1) % 256]
                      [] OTHER -> Append(Data(c + 1, Len(o.dict) - 1), 0)
               ELSE o.dict
      total == Len(ws.target)
      wmax == FoldLeft(LAMBDA a, x : Max2(a, x), 0, ws.sizes)
      lim == Fam = "limits"
      maxWin == IF lim THEN Pick(<<c, 240>>, <<wmax, wmax, Max2(0, wmax - 1), wmax + 1, 67108864, 0>>)
                ELSE IF Broken THEN 100000 ELSE 67108864
      maxFile == IF lim THEN Pick(<<c, 241>>, <<total, total, Max2(0, total - 1), total + 1, 67108864, 0, total \div 2>>)
                 ELSE IF Broken THEN 200000 ELSE 67108864
  IN [d |-> d, dict |-> dict2, allow |-> allow /\ Fam # "notarget", maxFile |-> maxFile, maxWin |-> maxWin,
      written |-> ws.target, sizes |-> ws.sizes, mu |-> o.mu]

------------------------------------------------------------------------------
(* Feeding the streaming machine byte by byte.                              *)
StepByte(x, b) ==
  IF x.err > 0 THEN x
  ELSE LET r == CallChunk(x.m, <<b>>)
           k == x.k + 1
       IN IF ~r.ret THEN [x EXCEPT !.k = k, !.err = k, !.errDone = x.m.del + Len(r.app)]
          ELSE [x EXCEPT !.k = k, !.m = r.m, !.out = @ \o r.app,
                         !.steps = IF r.app = <<>> THEN @ ELSE Append(@, <<k, r.m.del>>),
                         !.comp = IF Complete(r.m) THEN Append(@, k) ELSE @]
\* The same in pieces of the given length, where going byte by byte would take too long; steps and
\* comp then say nothing about positions in between (the replay does not use them).
RECURSIVE Pieces(_, _, _)
Pieces(x, d, p) ==
  IF p > Len(d) \/ x.err > 0 THEN x
  ELSE LET e == Min2(Len(d), p + 30000)
           r == CallChunk(x.m, SubSeq(d, p, e))
       IN IF ~r.ret THEN [x EXCEPT !.err = e, !.errDone = x.m.del + Len(r.app)]
          ELSE Pieces([x EXCEPT !.m = r.m, !.out = @ \o r.app], d, e + 1)
Machine0(cs) == CallStart([Fresh EXCEPT !.allow = cs.allow, !.maxFile = cs.maxFile, !.maxWin = cs.maxWin], cs.dict).m
Feed(cs) ==
  LET x0 == [m |-> Machine0(cs), k |-> 0, err |-> 0, errDone |-> 0, out |-> <<>>, steps |-> <<>>, comp |-> <<0>>]
  IN IF Fam \in {"huge", "ckbig", "bigtarget"} THEN Pieces(x0, cs.d, 1)
     ELSE FoldLeft(LAMBDA x, b : StepByte(x, b), x0, cs.d)

VARIABLES c, ph
vars == <<c, ph>>

Emit(cs, mean, f) ==
  PrintT("CASE " \o ToJson([
     id |-> c, fam |-> Fam, d |-> cs.d,
     dict |-> IF Fam = "bigdict" \/ Wide THEN <<>> ELSE cs.dict, allow |-> cs.allow,
     maxFile |-> cs.maxFile, maxWin |-> cs.maxWin, valid |-> mean.valid, out |-> f.out,
     sizes |-> mean.sizes, err |-> f.err, errDone |-> f.errDone, steps |-> f.steps, comp |-> f.comp,
     mu |-> cs.mu]))

\* (Values are bound with \E x \in {...}, which makes TLC evaluate them exactly once.)
GenStep ==
  /\ ph = "todo"
  /\ \E cs \in {Case(c)} :
     \E mean \in {Rf!Meaning(cs.d, [dict |-> cs.dict, allow |-> cs.allow, maxFile |-> cs.maxFile,
                                    maxWin |-> cs.maxWin, planned |-> -1] @@ (IF Wide THEN [dlen |-> WideLen] ELSE <<>>))} :
     \* (the machine keeps the dictionary in its state, where it has to be written out)
     \E f \in {IF Wide THEN [err |-> 0, errDone |-> 0, out |-> mean.target, steps |-> <<>>, comp |-> <<>>] ELSE Feed(cs)} :
     \E one \in {IF Wide THEN [ret |-> mean.valid, app |-> mean.target] ELSE CallDecode([Fresh EXCEPT !.allow = cs.allow, !.maxFile = cs.maxFile, !.maxWin = cs.maxWin],
                            cs.dict, cs.d)} :
     \E fine \in {IF Wide THEN mean.valid ELSE f.err = 0 /\ Complete(f.m)} :
        /\ Emit(cs, mean, f)
        /\ Fam = "bigdict" /\ c = From => PrintT("DICT " \o ToJson(BigDict))
        \* three formulations agree
        /\ ph' = IF /\ fine = mean.valid
                    /\ one.ret = mean.valid
                    /\ mean.valid => f.out = mean.target /\ one.app = mean.target
                    \* what the writer wrote is what the reader reads
                    /\ (Fam \in {"valid", "table", "target", "ck", "big", "bigdict", "huge", "ckbig", "bigtarget", "many", "wide"}) =>
                         (mean.valid /\ mean.target = cs.written)
                 THEN "ok" ELSE "disagree"
  /\ UNCHANGED c

Init == c \in From..To /\ ph = "todo"
Next == GenStep
Spec == Init /\ [][Next]_vars
Agreement == ph # "disagree"
=============================================================================
