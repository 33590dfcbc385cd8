------------------------------ MODULE MCCache -------------------------------
(***************************************************************************)
(* Two address caches, the writer's and the reader's.  The writer may choose *)
(* any mode that can express the address; the reader is only told the mode   *)
(* and the encoded value.  Same blocks have SameBlock = Block entries here,   *)
(* so that small addresses already collide.                                *)
(***************************************************************************)
EXTENDS VcdFormat, Json
CONSTANTS Near, Same, Block, MaxHere, Depth, Windows, Control, Keep
SmallBlock == Block

VARIABLES ce, cd, n, win, given, got, hist
vars == <<ce, cd, n, win, given, got, hist>>

Init == ce = CacheInit(Near) /\ cd = CacheInit(Near) /\ n = 0 /\ win = 1 /\ given = -1 /\ got = [st |-> "ok", v |-> -1, p |-> 2]
        /\ hist = <<>>

\* every <<mode, value>> that means a at position here
Ways(c, a, here) ==
     {<<0, a>>, <<1, here - a>>}
  \cup {<<1 + i, a - c.near[i]>> : i \in {j \in 1..Near : c.near[j] <= a}}
  \cup (IF Same > 0 /\ SameAt(c, a % (Same * SameBlock)) = a
        THEN LET s == a % (Same * SameBlock) IN {<<2 + Near + (s \div SameBlock), s % SameBlock>>}
        ELSE {})

Update(c, a, mode, side) ==
  IF side = "e" /\ Control = "samenoupdate" /\ IsSameMode(Near, mode) THEN c
  ELSE IF side = "d" /\ Control = "slot" /\ Near > 0
  THEN [CacheUpdate(c, Near, Same, a) EXCEPT !.next = (c.next + 1) % (IF Near > 1 THEN Near - 1 ELSE 1)]
  ELSE CacheUpdate(c, Near, Same, a)

Copy(a, here) ==
  \E w \in Ways(ce, a, here) :
    \E r \in {AddrAt(cd, Near, Same, w[1], here, <<w[2]>>, 1, 1)} :
      /\ given' = a /\ got' = r
      /\ ce' = Update(ce, a, w[1], "e")
      /\ cd' = IF r.st = "ok" THEN Update(cd, r.v, w[1], "d") ELSE cd
      /\ n' = n + 1 /\ UNCHANGED win
      /\ hist' = IF Keep THEN Append(hist, <<a, here, w[1], w[2]>>) ELSE hist
NewWindow ==
  /\ win < Windows /\ win' = win + 1 /\ n' = 0
  /\ ce' = CacheInit(Near) /\ cd' = (IF Control = "noreset" THEN cd ELSE CacheInit(Near))
  /\ hist' = IF Keep THEN Append(hist, <<-1>>) ELSE hist
  /\ UNCHANGED <<given, got>>
Next == \/ n < Depth /\ \E here \in 1..MaxHere : \E a \in 0..(here - 1) : Copy(a, here)
        \/ n > 0 /\ NewWindow
Spec == Init /\ [][Next]_vars

Agree == got.st = "ok" /\ got.v = given
InStep == ce = cd
Emit == Keep /\ n = Depth /\ win = Windows => PrintT("HIST " \o ToJson(hist))
=============================================================================
