------------------------------ MODULE VcdJson -------------------------------
(***************************************************************************)
(* JSON output: a reader for arrays of strings and integers (RFC 8259),     *)
(* and the target such an array denotes, given the dictionary.              *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Ws == {32, 9, 10, 13}
RECURSIVE SkipWs(_, _)
SkipWs(d, p) == IF p <= Len(d) /\ d[p] \in Ws THEN SkipWs(d, p + 1) ELSE p

LOCAL HexDigit(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE -1
LOCAL Bad == [ok |-> FALSE, s |-> <<>>, p |-> 0]

\* The rest of a string literal from position p; only characters below 128 can be denoted here.
RECURSIVE Str(_, _, _)
Str(d, p, acc) ==
  IF p > Len(d) THEN Bad
  ELSE IF d[p] = 34 THEN [ok |-> TRUE, s |-> acc, p |-> p + 1]
  ELSE IF d[p] < 32 \/ d[p] > 127 THEN Bad
  ELSE IF d[p] # 92 THEN Str(d, p + 1, Append(acc, d[p]))
  ELSE IF p + 1 > Len(d) THEN Bad
  ELSE CASE d[p + 1] = 34 -> Str(d, p + 2, Append(acc, 34))
         [] d[p + 1] = 92 -> Str(d, p + 2, Append(acc, 92))
         [] d[p + 1] = 47 -> Str(d, p + 2, Append(acc, 47))
         [] d[p + 1] = 98 -> Str(d, p + 2, Append(acc, 8))
         [] d[p + 1] = 102 -> Str(d, p + 2, Append(acc, 12))
         [] d[p + 1] = 110 -> Str(d, p + 2, Append(acc, 10))
         [] d[p + 1] = 114 -> Str(d, p + 2, Append(acc, 13))
         [] d[p + 1] = 116 -> Str(d, p + 2, Append(acc, 9))
         [] d[p + 1] = 117 ->
              IF p + 5 > Len(d) THEN Bad
              ELSE LET h == [i \in 1..4 |-> HexDigit(d[p + 1 + i])]
                   IN IF \E i \in 1..4 : h[i] < 0 THEN Bad
                      ELSE LET v == h[1] * 4096 + h[2] * 256 + h[3] * 16 + h[4]
                           IN IF v > 127 THEN Bad ELSE Str(d, p + 6, Append(acc, v))
         [] OTHER -> Bad

RECURSIVE Num(_, _, _)
Num(d, p, acc) == IF p <= Len(d) /\ d[p] \in 48..57 /\ acc < 200000000 THEN Num(d, p + 1, acc * 10 + (d[p] - 48))
                  ELSE [v |-> acc, p |-> p]

LOCAL BadItem == [ok |-> FALSE, k |-> "", s |-> <<>>, v |-> 0, p |-> 0]
\* One array element at position p.
Item(d, p) ==
  IF p > Len(d) THEN BadItem
  ELSE IF d[p] = 34
  THEN LET x == Str(d, p + 1, <<>>) IN [ok |-> x.ok, k |-> "s", s |-> x.s, v |-> 0, p |-> x.p]
  ELSE IF d[p] = 48 THEN [ok |-> TRUE, k |-> "n", s |-> <<>>, v |-> 0, p |-> p + 1]
  ELSE IF d[p] \in 49..57
  THEN LET x == Num(d, p, 0) IN [ok |-> TRUE, k |-> "n", s |-> <<>>, v |-> x.v, p |-> x.p]
  ELSE BadItem

\* The elements after "[", as a sequence of strings and numbers.
RECURSIVE Items(_, _, _)
Items(d, p, acc) ==
  LET x == Item(d, SkipWs(d, p))
  IN IF ~x.ok THEN [ok |-> FALSE, items |-> acc, p |-> p]
     ELSE LET q == SkipWs(d, x.p)
              acc2 == Append(acc, [k |-> x.k, s |-> x.s, v |-> x.v])
          IN IF q > Len(d) THEN [ok |-> FALSE, items |-> acc, p |-> q]
             ELSE IF d[q] = 93 THEN [ok |-> TRUE, items |-> acc2, p |-> q + 1]
             ELSE IF d[q] = 44 THEN Items(d, q + 1, acc2)
             ELSE [ok |-> FALSE, items |-> acc, p |-> q]

\* A complete document.
Parse(d) ==
  LET p == SkipWs(d, 1)
      no == [ok |-> FALSE, items |-> <<>>]
  IN IF p > Len(d) \/ d[p] # 91 THEN no
     ELSE LET q == SkipWs(d, p + 1)
          IN IF q <= Len(d) /\ d[q] = 93 THEN [ok |-> SkipWs(d, q + 1) > Len(d), items |-> <<>>]
             ELSE LET r == Items(d, p + 1, <<>>)
                  IN IF ~r.ok \/ SkipWs(d, r.p) <= Len(d) THEN no ELSE [ok |-> TRUE, items |-> r.items]

LOCAL At(dict, t, x) == IF x < Len(dict) THEN dict[x + 1] ELSE t[x - Len(dict) + 1]
LOCAL Range(dict, t, off, n) ==
  LET D == Len(dict)   here == D + Len(t)
  IN IF off + n <= D THEN SubSeq(dict, off + 1, off + n)
     ELSE IF off >= D /\ off + n <= here THEN SubSeq(t, off - D + 1, off - D + n)
     ELSE [i \in 1..n |-> LET x == off + i - 1
                             y == IF x < here THEN x ELSE off + ((x - off) % (here - off))
                         IN At(dict, t, y)]

\* The target the elements denote.
RECURSIVE Rebuild(_, _, _, _)
Rebuild(dict, it, i, t) ==
  IF i > Len(it) THEN [ok |-> TRUE, t |-> t]
  ELSE IF it[i].k = "s" THEN Rebuild(dict, it, i + 1, t \o it[i].s)
  ELSE IF i + 1 > Len(it) \/ it[i + 1].k # "n" THEN [ok |-> FALSE, t |-> t]
  ELSE IF it[i].v >= Len(dict) + Len(t) \/ it[i + 1].v > 10000000 THEN [ok |-> FALSE, t |-> t]
  ELSE Rebuild(dict, it, i + 2, t \o Range(dict, t, it[i].v, it[i + 1].v))

\* C17: text is valid and denotes the target.
Denotes(text, dict, target) ==
  IF target = <<>> THEN text = <<>>
  ELSE LET r == Parse(text)
       IN r.ok /\ LET b == Rebuild(dict, r.items, 1, <<>>) IN b.ok /\ b.t = target
=============================================================================
