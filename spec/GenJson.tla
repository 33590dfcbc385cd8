------------------------------ MODULE GenJson -------------------------------
(***************************************************************************)
(* JSON texts, well formed or not, and what VcdJson says of them: the cases  *)
(* by which the reader of the harness (harness/jsonmeaning.h), used for texts *)
(* too large for TLC, is bound to the specification.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, SequencesExt
CONSTANTS Seed, From, To
Js == INSTANCE VcdJson
Rn == INSTANCE Prng
R(path, n) == Rn!R(path, n)
Pick(path, seq) == Rn!Pick(path, seq)
Chance(path, n) == Rn!Chance(path, n)
Cat(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)

Hex(v, up) == IF v < 10 THEN 48 + v ELSE (IF up THEN 55 ELSE 87) + v
RECURSIVE Digits(_)
Digits(v) == IF v < 10 THEN <<48 + v>> ELSE Append(Digits(v \div 10), 48 + (v % 10))

Escape(path, b) ==
  LET short == CASE b = 34 -> <<92, 34>> [] b = 92 -> <<92, 92>> [] b = 47 -> <<92, 47>> [] b = 8 -> <<92, 98>> [] b = 12 -> <<92, 102>>
                 [] b = 10 -> <<92, 110>> [] b = 13 -> <<92, 114>> [] b = 9 -> <<92, 116>> [] OTHER -> <<b>>
      long == <<92, 117, 48, 48, Hex(b \div 16, Chance(Append(path, 1), 2)), Hex(b % 16, Chance(Append(path, 2), 2))>>
  IN IF short = <<b>> /\ b < 32 THEN long ELSE IF Chance(Append(path, 3), 4) THEN long ELSE short
Space(path) == IF R(path, 6) # 0 THEN <<>> ELSE [i \in 1..(1 + R(Append(path, 1), 2)) |-> Pick(Append(path, 1 + i), <<32, 9, 10, 13>>)]

Byte(path) == IF Chance(path, 3) THEN Pick(Append(path, 1), <<34, 92, 47, 8, 12, 10, 13, 9, 0, 31, 127, 32, 65, 117>>) ELSE R(Append(path, 2), 128)
\* elements: strings and pairs; mostly pairs within what is there
RECURSIVE Elems(_, _, _, _)
Elems(path, n, here, acc) ==
  IF n = 0 THEN acc
  ELSE IF here = 0 \/ Chance(<<path, n, 1>>, 2)
  THEN LET k == R(<<path, n, 2>>, 6)
           s == Cat([i \in 1..k |-> Escape(<<path, n, 3, i>>, Byte(<<path, n, 4, i>>))])
       IN Elems(path, n - 1, here + k, Append(acc, <<34>> \o s \o <<34>>))
  ELSE LET off == IF Chance(<<path, n, 5>>, 12) THEN here + R(<<path, n, 6>>, 3) ELSE R(<<path, n, 7>>, here)
           len == R(<<path, n, 8>>, 12)
       IN Elems(path, n - 1, here + len, acc \o <<Digits(off), Digits(len)>>)
Text(c, dict) ==
  LET es == Elems(c, R(<<c, 1>>, 6), Len(dict), <<>>)
  IN Space(<<c, 2>>) \o <<91>> \o Cat([i \in 1..Len(es) |-> (IF i = 1 THEN <<>> ELSE <<44>>) \o Space(<<c, 3, i>>) \o es[i] \o Space(<<c, 4, i>>)]) \o
     <<93>> \o Space(<<c, 5>>)
\* something removed, replaced, inserted
Odd(c, t) ==
  IF t = <<>> THEN t
  ELSE LET p == 1 + R(<<c, 6>>, Len(t))
           b == Pick(<<c, 7>>, <<44, 34, 91, 93, 92, 48, 49, 57, 45, 46, 97, 200, 127, 31, 32, 117>>)
       IN CASE R(<<c, 8>>, 4) = 0 -> SubSeq(t, 1, p - 1) \o SubSeq(t, p + 1, Len(t))
            [] R(<<c, 8>>, 4) = 1 -> [t EXCEPT ![p] = b]
            [] R(<<c, 8>>, 4) = 2 -> SubSeq(t, 1, p - 1) \o <<b>> \o SubSeq(t, p, Len(t))
            [] OTHER -> SubSeq(t, 1, p - 1)

Case(c) ==
  LET dict == [i \in 1..R(<<c, 9>>, 12) |-> R(<<c, 10, i>>, 128)]
      t0 == Text(c, dict)
      t == IF Chance(<<c, 11>>, 2) THEN Odd(c, t0) ELSE t0
      r == Js!Parse(t)
      b == IF r.ok THEN Js!Rebuild(dict, r.items, 1, <<>>) ELSE [ok |-> FALSE, t |-> <<>>]
  IN [id |-> c, dict |-> dict, text |-> t, ok |-> b.ok, target |-> IF b.ok THEN b.t ELSE <<>>]

VARIABLES n, done
vars == <<n, done>>
Init == n \in From..To /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED n /\ PrintT("CASE " \o ToJson(Case(n)))
Spec == Init /\ [][Next]_vars
\* what the text was made from is what it is read as
AsWritten == \A d \in {[i \in 1..R(<<n, 9>>, 12) |-> R(<<n, 10, i>>, 128)]} : Js!Parse(Text(n, d)).ok
=============================================================================
