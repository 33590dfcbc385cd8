----------------------------- MODULE GenScale ------------------------------
(***************************************************************************)
(* Delta files of any size.  A case is a program over *letters*: windows     *)
(* whose instructions add, repeat and copy letters.  A morphism h gives every *)
(* letter a block of bytes (a power of one byte, if the letter is repeated by *)
(* a RUN); File(p, h) writes the program with all sizes, positions and         *)
(* addresses measured in the bytes of the blocks.  Decoding commutes with h:   *)
(*                                                                          *)
(*    Meaning(File(p, h), h(dictionary)).target = h(what p does to letters)  *)
(*                                                                          *)
(* TLC checks that for small morphisms and prints the program; the replay     *)
(* uses the same program with blocks of up to some megabytes.  Broken programs *)
(* (mu) are invalid under every morphism.                                    *)
(***************************************************************************)
EXTENDS VcdDecoder, Json
CONSTANTS Seed, From, To, Control
Rf == INSTANCE VcdRfc
Rn == INSTANCE Prng
R(path, n) == Rn!R(path, n)
Pick(path, seq) == Rn!Pick(path, seq)
Chance(path, n) == Rn!Chance(path, n)

Letters == 6          \* 0 .. 5; runs are made of 0 and 1
RunLetters == 2
------------------------------------------------------------------------------
(* Programs.                                                                *)
Letter(path) == R(path, Letters)
Word(path, n) == [i \in 1..n |-> Letter(Append(path, i))]

\* the next instruction, given the source segment and what has been produced (letters)
InstOf(path, src, win) ==
  LET here == Len(src) + Len(win)
      k == R(Append(path, 1), 7)
  IN IF here = 0 \/ k <= 1 THEN [k |-> ADD, w |-> Word(Append(path, 2), 1 + R(Append(path, 3), 3)), n |-> 0, a |-> 0, pref |-> 0]
     ELSE IF k = 2 THEN [k |-> RUN, w |-> <<R(Append(path, 4), RunLetters)>>, n |-> 1 + R(Append(path, 5), 3), a |-> 0, pref |-> 0]
     ELSE LET a == IF Chance(Append(path, 6), 3) THEN here - 1 - R(Append(path, 7), Min2(here, 2)) ELSE R(Append(path, 8), here)
              n == 1 + R(Append(path, 9), Pick(Append(path, 10), <<2, 4, 9>>))
          IN [k |-> COPY, w |-> CopyBytes(src, win, a, n), n |-> n, a |-> a, pref |-> R(Append(path, 11), 9)]
Produces(i) == IF i.k = RUN THEN [j \in 1..i.n |-> i.w[1]] ELSE i.w

RECURSIVE Insts(_, _, _, _, _)
Insts(path, src, n, acc, win) ==
  IF n = 0 THEN [insts |-> acc, win |-> win]
  ELSE LET i == InstOf(Append(path, n), src, win) IN Insts(path, src, n - 1, Append(acc, i), win \o Produces(i))

RECURSIVE Wins(_, _, _, _)
Wins(o, k, acc, out) ==
  IF k > o.nwin THEN [wins |-> acc, out |-> out]
  ELSE LET kind == Pick(<<o.c, k, 1>>, IF Len(out) > 0 /\ o.allow THEN <<0, 1, 1, 2, 2>> ELSE <<0, 1, 1>>)
           from == IF kind = 2 THEN out ELSE o.dict
           full == Chance(<<o.c, k, 2>>, 3)
           pos == IF kind = 0 THEN 0 ELSE IF full THEN 0 ELSE R(<<o.c, k, 3>>, Len(from))
           len == IF kind = 0 THEN 0 ELSE IF full THEN Len(from) ELSE 1 + R(<<o.c, k, 4>>, Len(from) - pos)
           src == SubSeq(from, pos + 1, pos + len)
           r == Insts(<<o.c, k, 5>>, src, 1 + R(<<o.c, k, 6>>, 5), <<>>, <<>>)
       IN Wins(o, k + 1, Append(acc, [src |-> kind, pos |-> pos, len |-> len, from |-> from, seg |-> src, win |-> r.win, insts |-> r.insts,
                                      inter |-> o.ext /\ R(<<o.c, k, 7>>, 2) = 0, ck |-> o.ext /\ R(<<o.c, k, 8>>, 3) = 0]),
               out \o r.win)

Program(c) ==
  LET nwin == 1 + R(<<c, 1>>, 3)
      o == [c |-> c, ext |-> R(<<c, 2>>, 3) > 0, allow |-> R(<<c, 3>>, 4) > 0, nwin |-> nwin, dict |-> Word(<<c, 4>>, 1 + R(<<c, 5>>, 6))]
      w == Wins(o, 1, <<>>, <<>>)
      mw == 1 + R(<<c, 6>>, nwin)
      can(m) == CASE m = "seg" -> w.wins[mw].src # 0
                  [] m = "ck" -> w.wins[mw].ck
                  [] m = "addr" -> \E i \in 1..Len(w.wins[mw].insts) : w.wins[mw].insts[i].k = COPY
                  [] OTHER -> TRUE
      mu == Pick(<<c, 7>>, <<"none", "none", "none", "more", "less", "seg", "addr", "cut", "rest", "ck", "ck", "long">>)
  IN o @@ [wins |-> w.wins, out |-> w.out, mw |-> mw, mu |-> IF can(mu) THEN mu ELSE "none"]
------------------------------------------------------------------------------
(* Writing a program under a morphism.                                       *)
Blocks(h, s) == FoldLeft(LAMBDA a, l : a \o h[l + 1], <<>>, s)
Width(h, s) == FoldLeft(LAMBDA a, l : a + Len(h[l + 1]), 0, s)
\* the byte address of letter number a of s (which is produced so far; a < Len(s))
At(h, s, a) == IF Control = "shift" /\ a > 0 THEN Width(h, SubSeq(s, 1, a)) - 1 ELSE Width(h, SubSeq(s, 1, a))

\* the address a (in bytes): the preferred mode if it can express it
AddrOf(cache, pref, here, a) ==
  IF pref = 1 THEN [mode |-> 1, b |-> EncVarint(here - a)]
  ELSE IF pref \in 2..5 THEN IF cache.near[pref - 1] <= a THEN [mode |-> pref, b |-> EncVarint(a - cache.near[pref - 1])] ELSE [mode |-> 0, b |-> EncVarint(a)]
  ELSE IF pref \in 6..8 THEN IF SameAt(cache, a % 768) = a THEN [mode |-> 6 + ((a % 768) \div 256), b |-> <<a % 256>>] ELSE [mode |-> 0, b |-> EncVarint(a)]
  ELSE [mode |-> 0, b |-> EncVarint(a)]

WriteInst(h, w, mu, x, j) ==
  LET i == w.insts[j]
      whole == w.seg \o SubSeq(w.win, 1, x.done)
      here == Width(h, whole)
      first == mu = "addr" /\ \A q \in 1..j - 1 : w.insts[q].k # COPY
      a == IF first THEN here ELSE At(h, whole, i.a)
      ad == IF first THEN [mode |-> 0, b |-> EncVarint(a)] ELSE AddrOf(x.cache, i.pref, here, a)
      more == IF mu = "long" /\ j = Len(w.insts) THEN 1 ELSE 0
      inst == CASE i.k = ADD -> <<1>> \o EncVarint(Width(h, i.w) + more)
                [] i.k = RUN -> <<0>> \o EncVarint(i.n * Len(h[i.w[1] + 1]) + more)
                [] i.k = COPY -> <<19 + 16 * ad.mode>> \o EncVarint(Width(h, i.w) + more)
      data == CASE i.k = ADD -> Blocks(h, i.w) \o (IF more = 1 THEN <<7>> ELSE <<>>) [] i.k = RUN -> <<h[i.w[1] + 1][1]>> [] OTHER -> <<>>
      addr == IF i.k = COPY THEN ad.b ELSE <<>>
      c2 == IF i.k = COPY THEN CacheUpdate(x.cache, 4, 3, a) ELSE x.cache
      n == x.done + Len(Produces(i))
  IN IF w.inter THEN [done |-> n, cache |-> c2, i |-> x.i \o inst \o data \o addr, d |-> <<>>, a |-> <<>>]
     ELSE [done |-> n, cache |-> c2, i |-> x.i \o inst, d |-> x.d \o data, a |-> x.a \o addr]

\* five groups
Five(hi, lo) == LET e == EncVarint32(hi, lo) IN Pad128(5 - Len(e)) \o e
Window(h, w, mu) ==
  LET x == FoldLeft(LAMBDA acc, j : WriteInst(h, w, mu, acc, j),
                    [done |-> 0, cache |-> CacheInit(4), i |-> <<>>, d |-> <<>>, a |-> <<>>], [j \in 1..Len(w.insts) |-> j])
      y == IF mu # "rest" THEN x ELSE IF w.inter THEN [x EXCEPT !.i = Append(@, 7)] ELSE [x EXCEPT !.d = Append(@, 7)]
      ck == Adler(Blocks(h, w.win))
      tlen == Width(h, w.win) + (CASE mu = "more" -> 1 [] mu = "less" -> -1 [] OTHER -> 0)
      len == IF mu = "seg" THEN Width(h, SubSeq(w.from, w.pos + 1, Len(w.from))) + 1 ELSE Width(h, w.seg)
      body == EncVarint(tlen) \o <<0>> \o EncVarint(Len(y.d)) \o EncVarint(Len(y.i)) \o EncVarint(Len(y.a))
              \o (IF w.ck THEN Five((ck[1] + (IF mu = "ck" THEN 1 ELSE 0)) % 65536, ck[2]) ELSE <<>>) \o y.d \o y.i \o y.a
  IN <<w.src + (IF w.ck THEN 4 ELSE 0)>>
     \o (IF w.src = 0 THEN <<>> ELSE EncVarint(len) \o EncVarint(Width(h, SubSeq(w.from, 1, w.pos))))
     \o EncVarint(Len(body)) \o body
File(p, h) ==
  LET f == <<214, 195, 196, IF p.ext THEN 83 ELSE 0, 0>>
           \o FoldLeft(LAMBDA a, k : a \o Window(h, p.wins[k], IF k = p.mw THEN p.mu ELSE "none"), <<>>, [k \in 1..p.nwin |-> k])
  IN IF p.mu = "cut" THEN SubSeq(f, 1, Len(f) - 1) ELSE f

------------------------------------------------------------------------------
(* Two morphisms to check with.                                              *)
H1 == << <<9>>, <<5, 5, 5>>, <<1, 2>>, <<3>>, <<4, 6, 8, 10>>, <<250, 0, 7>> >>
H2 == << [i \in 1..31 |-> 0], [i \in 1..130 |-> 255], [i \in 1..2 |-> i], [i \in 1..70 |-> (i * i) % 256],
         [i \in 1..17 |-> 99 + i], <<77>> >>

VARIABLES c, ph
vars == <<c, ph>>
Opt(p, h) == [dict |-> Blocks(h, p.dict), allow |-> p.allow, maxFile |-> 67108864, maxWin |-> 67108864, planned |-> -1]
Gen ==
  /\ ph = "todo"
  /\ \E p \in {Program(c)} :
     \E f1 \in {File(p, H1)} : \E f2 \in {File(p, H2)} :
     \E m1 \in {Rf!Meaning(f1, Opt(p, H1))} : \E m2 \in {Rf!Meaning(f2, Opt(p, H2))} :
       /\ ph' = IF /\ m1.valid = (p.mu = "none") /\ m2.valid = m1.valid
                   /\ m1.valid => m1.target = Blocks(H1, p.out) /\ m2.target = Blocks(H2, p.out)
                THEN "ok" ELSE "disagree"
       /\ PrintT("CASE " \o ToJson([id |-> c, dict |-> p.dict, out |-> p.out, ext |-> p.ext, allow |-> p.allow, mu |-> p.mu, mw |-> p.mw,
                                    wins |-> [k \in 1..p.nwin |-> [src |-> p.wins[k].src, pos |-> p.wins[k].pos, len |-> p.wins[k].len,
                                                                  inter |-> p.wins[k].inter, ck |-> p.wins[k].ck, insts |-> p.wins[k].insts]],
                                    f1 |-> f1, f2 |-> f2]))
  /\ UNCHANGED c
Init == c \in From..To /\ ph = "todo"
Next == Gen
Spec == Init /\ [][Next]_vars
Commutes == ph # "disagree"
=============================================================================
