------------------------------ MODULE MCWriter ------------------------------
(***************************************************************************)
(* How the writer chooses opcodes: a request becomes the opcode that has its *)
(* size, or the one with an explicit size; and if the opcode before it is     *)
(* still single and there is an opcode combining both, that takes its place.  *)
(* All request sequences up to MaxReqs over the table Table (a sequence of    *)
(* <<inst1, size1, inst2, size2>>), both layouts.  Streams are sequences of   *)
(* <<"op", k>>, <<"size", n>>, <<"data", x>>, so that a misplaced item shows. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
CONSTANTS MaxReqs, Sizes, Control

\* 1 ADD, 3 COPY, 0 none; size 0: explicit
Table == << <<1, 0, 0, 0>>, <<3, 0, 0, 0>>, <<1, 1, 0, 0>>, <<3, 2, 0, 0>>, <<1, 1, 3, 2>>, <<3, 2, 1, 1>>, <<3, 0, 1, 0>>,
            <<0, 0, 1, 3>>, <<1, 3, 3, 0>>, <<1, 1, 1, 1>> >>
N == Len(Table)
None == 0

First(inst, size) ==
  LET s == {k \in 1..N : \/ Table[k][3] = 0 /\ Table[k][1] = inst /\ Table[k][2] = size
                         \/ Table[k][1] = 0 /\ Table[k][3] = inst /\ Table[k][4] = size}
  IN IF s = {} THEN None ELSE CHOOSE k \in s : \A j \in s : k <= j
Second(op, inst, size) ==
  LET s == {k \in 1..N : /\ Table[k][1] # 0 /\ Table[k][3] # 0
                         /\ First(Table[k][1], Table[k][2]) = op /\ Table[k][3] = inst /\ Table[k][4] = size}
  IN IF s = {} THEN None ELSE CHOOSE k \in s : \A j \in s : k <= j

VARIABLES inter, reqs, is, ops, last
vars == <<inter, reqs, is, ops, last>>
\* is: instruction stream; ops: operands (data and addresses) of the separate layout; last: index of a single opcode, or 0
Init == inter \in BOOLEAN /\ reqs = <<>> /\ is = <<>> /\ ops = <<>> /\ last = 0

\* the stream after the opcode of a request
Code(inst, size) ==
  LET op == IF last = 0 THEN None ELSE is[last][2]
      c1 == IF op = None \/ size = 0 THEN None ELSE Second(op, inst, size)
      c0 == IF op = None THEN None ELSE Second(op, inst, 0)
      f1 == IF size = 0 THEN None ELSE First(inst, size)
      here == IF Control = "stale" /\ last # 0 THEN last ELSE Len(is) + 1
      explicit(s) == IF Control = "nosize" THEN s ELSE Append(s, <<"size", size>>)
  IN IF c1 # None THEN [is |-> [is EXCEPT ![last] = <<"op", c1>>], last |-> 0]
     ELSE IF c0 # None THEN [is |-> explicit([is EXCEPT ![last] = <<"op", c0>>]), last |-> 0]
     ELSE IF f1 # None THEN [is |-> Append(is, <<"op", f1>>), last |-> here]
     ELSE [is |-> Append(Append(is, <<"op", First(inst, 0)>>), <<"size", size>>), last |-> here]

Request(inst, size) ==
  \E r \in {Code(inst, size)} :
    LET x == <<"data", <<inst, Len(reqs) + 1>> >>
    IN /\ last' = r.last
       /\ is' = (IF inter THEN Append(r.is, x) ELSE r.is)
       /\ ops' = (IF inter THEN ops ELSE Append(ops, x))
       /\ reqs' = Append(reqs, <<inst, size>>)
       /\ UNCHANGED inter
Next == Len(reqs) < MaxReqs /\ \E i \in {1, 3}, s \in Sizes : Request(i, s)
Spec == Init /\ [][Next]_vars

\* What a decoder makes of the streams: <<requests read, operands met>>
RECURSIVE Read(_, _, _, _, _)
Read(p, q, pend, rs, xs) ==
  LET inst(k, h) == Table[k][2 * h - 1]
      size(k, h) == Table[k][2 * h]
      do(k, h, p1, pend1) ==
        LET explicit == size(k, h) = 0
            okSize == ~explicit \/ (p1 <= Len(is) /\ is[p1][1] = "size")
            n == IF explicit THEN (IF okSize THEN is[p1][2] ELSE -1) ELSE size(k, h)
            p2 == IF explicit THEN p1 + 1 ELSE p1
            x == IF inter THEN (IF p2 <= Len(is) THEN is[p2] ELSE <<"end", 0>>) ELSE (IF q <= Len(ops) THEN ops[q] ELSE <<"end", 0>>)
        IN IF ~okSize THEN [ok |-> FALSE, rs |-> rs, xs |-> xs]
           ELSE Read(IF inter THEN p2 + 1 ELSE p2, q + 1, pend1, Append(rs, <<inst(k, h), n>>), Append(xs, x))
  IN IF pend # 0 THEN do(pend, 2, p, 0)
     ELSE IF p > Len(is) THEN [ok |-> (inter \/ q = Len(ops) + 1), rs |-> rs, xs |-> xs]
     ELSE IF is[p][1] # "op" THEN [ok |-> FALSE, rs |-> rs, xs |-> xs]
     ELSE LET k == is[p][2]
          IN IF Table[k][1] = 0 THEN Read(p + 1, q, k, rs, xs)
             ELSE do(k, 1, p + 1, IF Table[k][3] # 0 THEN k ELSE 0)
Means ==
  LET r == Read(1, 1, 0, <<>>, <<>>)
  IN /\ r.ok /\ r.rs = reqs
     /\ r.xs = [i \in 1..Len(reqs) |-> <<"data", <<reqs[i][1], i>> >>]
=============================================================================
