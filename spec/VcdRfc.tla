------------------------------- MODULE VcdRfc -------------------------------
(***************************************************************************)
(* What a delta file means: a complete byte string is either not a well-    *)
(* formed delta file for the given dictionary, or it denotes a target.      *)
(* This formulation knows nothing of streaming, of chunks or of the order   *)
(* in which checks are made; VcdDecoder is the state machine, and MCDecoder *)
(* has TLC check that the two agree.                                        *)
(***************************************************************************)
EXTENDS VcdFormat

Invalid == [valid |-> FALSE, target |-> <<>>, wins |-> 0, next |-> 0, sizes |-> <<>>]

\* All integers of a list of fields, in sequence: position or 0 when not well formed.
RECURSIVE Ints(_, _, _, _)
Ints(d, p, n, acc) ==
  IF n = 0 THEN [ok |-> TRUE, v |-> acc, p |-> p]
  ELSE LET x == Varint(d, p, Len(d))
       IN IF x.st # "ok" THEN [ok |-> FALSE, v |-> acc, p |-> p]
          ELSE Ints(d, x.p, n - 1, Append(acc, x.v))

\* One window starting at position p.  cfg: dict, allow, maxWin, tab, near, same, ext.
\* prior: all target data decoded before.
RfcWindow(cfg, d, p, prior) ==
  LET bad == [ok |-> FALSE, win |-> <<>>, p |-> p]
      wi == d[p]
      fromSrc == Bit(wi, 1)
      fromTgt == Bit(wi, 2)
      hasCk == cfg.ext /\ Bit(wi, 4)
  IN IF fromSrc /\ fromTgt THEN bad
     ELSE IF fromTgt /\ ~cfg.allow THEN bad
     ELSE
     LET seg == IF fromSrc \/ fromTgt THEN Ints(d, p + 1, 2, <<>>)
                ELSE [ok |-> TRUE, v |-> <<0, 0>>, p |-> p + 1]
         from == IF fromTgt THEN prior ELSE cfg.dict
         wide == ~fromTgt /\ "dlen" \in DOMAIN cfg      \* a dictionary too long to be written out
         flen == IF wide THEN cfg.dlen ELSE Len(from)
     IN IF ~seg.ok THEN bad
        ELSE IF (fromSrc \/ fromTgt) /\
                (seg.v[1] > flen \/ seg.v[2] > flen - seg.v[1]) THEN bad
        ELSE
        LET src == IF fromSrc /\ wide THEN <<>>
                   ELSE IF fromSrc \/ fromTgt THEN SubSeq(from, seg.v[2] + 1, seg.v[2] + seg.v[1])
                   ELSE <<>>
            h == Ints(d, seg.p, 2, <<>>)
        IN IF ~h.ok \/ h.p > Len(d) THEN bad
           ELSE IF h.v[2] > cfg.maxWin THEN bad
           ELSE IF d[h.p] % 8 # 0 THEN bad
           ELSE
           LET l == Ints(d, h.p + 1, 3, <<>>)
           IN IF ~l.ok THEN bad
              ELSE
              LET ck == IF hasCk THEN Varint32(d, l.p, Len(d))
                        ELSE [st |-> "ok", hi |-> 0, lo |-> 0, p |-> l.p]
              IN IF ck.st # "ok" THEN bad
                 ELSE
                 LET start == (CHOOSE q \in {Varint(d, seg.p, Len(d)).p} : TRUE)
                     body == ck.p
                     room == h.v[1] - (body - start)   \* what the three sections may occupy
                 IN IF room < 0 \/ room - l.v[1] < 0 \/ room - l.v[1] - l.v[2] < 0
                       \/ room - l.v[1] - l.v[2] # l.v[3] THEN bad
                    ELSE IF body - 1 > Len(d) - room THEN bad
                    ELSE
                    LET inter == cfg.ext /\ l.v[1] = 0 /\ l.v[3] = 0
                        i0 == body + l.v[1]
                        a0 == i0 + l.v[2]
                        env == [tab |-> cfg.tab, near |-> cfg.near, same |-> cfg.same,
                                src |-> src, tlen |-> h.v[2], inter |-> inter]
                               @@ (IF fromSrc /\ wide THEN [slen |-> seg.v[1], sbase |-> seg.v[2]] ELSE <<>>)
                        s0 == [ip |-> i0, ie |-> a0 - 1, dp |-> body, de |-> i0 - 1,
                               ap |-> a0, ae |-> body + room - 1, pend |-> NoPend,
                               cache |-> CacheInit(cfg.near), win |-> <<>>]
                        r == RunBody(env, d, s0)
                    IN IF r.st # "ok" THEN bad
                       ELSE IF r.s.ip # a0 \/ r.s.pend # NoPend THEN bad
                       ELSE IF ~inter /\ (r.s.dp # i0 \/ r.s.ap # body + room) THEN bad
                       ELSE IF hasCk /\ Adler(r.s.win) # <<ck.hi, ck.lo>> THEN bad
                       ELSE [ok |-> TRUE, win |-> r.s.win, p |-> body + room]

\* All windows from position p to the end (or until the planned size is reached).
RECURSIVE RfcWindows(_, _, _, _)
RfcWindows(cfg, d, p, acc) ==
  IF (cfg.planned >= 0 /\ acc.wins > 0 /\ Len(acc.target) = cfg.planned) \/ p > Len(d)
  THEN IF cfg.planned >= 0 /\ Len(acc.target) # cfg.planned THEN Invalid
       ELSE [acc EXCEPT !.next = p]
  ELSE LET w == RfcWindow(cfg, d, p, acc.target)
           lim == Min2(cfg.maxFile, IF cfg.planned >= 0 THEN cfg.planned ELSE MaxInt31)
       IN IF ~w.ok THEN Invalid
          ELSE IF Len(w.win) > lim - Len(acc.target) THEN Invalid
          ELSE RfcWindows(cfg, d, w.p,
                          [acc EXCEPT !.target = @ \o w.win, !.wins = @ + 1,
                                      !.sizes = Append(@, Len(w.win))])

\* A delta file.  opt: dict, allow, maxFile, maxWin, planned (-1: none).
RECURSIVE Rfc(_, _, _)
Rfc(d, p0, opt) ==
  LET d0(i) == d[p0 + i - 1]
      n == Len(d) - p0 + 1
      ok0 == [valid |-> TRUE, target |-> <<>>, wins |-> 0, next |-> p0, sizes |-> <<>>]
      cfg0 == opt @@ [tab |-> DefaultTable, near |-> DefaultNear, same |-> DefaultSame]
  IN IF n = 0 THEN IF opt.planned >= 0 THEN Invalid ELSE ok0
     ELSE IF n < 5 THEN Invalid
     ELSE IF d0(1) # 214 \/ d0(2) # 195 \/ d0(3) # 196 \/ d0(4) \notin {0, 83} THEN Invalid
     ELSE IF Bit(d0(5), 1) THEN Invalid
     ELSE LET ext == d0(4) = 83 IN
          IF ~Bit(d0(5), 2)
          THEN RfcWindows([cfg0 EXCEPT !.tab = DefaultTable] @@ [ext |-> ext], d, p0 + 5, ok0)
          ELSE IF opt.planned >= 0 THEN Invalid   \* a code table for a code table
          ELSE LET c == Ints(d, p0 + 5, 2, <<>>)
               IN IF ~c.ok THEN Invalid
                  ELSE IF c.v[1] > 255 \/ c.v[2] > 255 THEN Invalid
                  ELSE IF c.v[1] + c.v[2] > 254 THEN Invalid
                  ELSE LET t == Rfc(d, c.p, [dict |-> DefaultTable, allow |-> TRUE,
                                             maxFile |-> 67108864, maxWin |-> 67108864,
                                             planned |-> 1536])
                       IN IF ~t.valid THEN Invalid
                          ELSE IF ~TableValid(t.target, LastMode(c.v[1], c.v[2])) THEN Invalid
                          ELSE RfcWindows([cfg0 EXCEPT !.tab = t.target, !.near = c.v[1],
                                                       !.same = c.v[2]] @@ [ext |-> ext],
                                          d, t.next, ok0)

DefaultOpt(dict) == [dict |-> dict, allow |-> TRUE, maxFile |-> 67108864,
                     maxWin |-> 67108864, planned |-> -1]
Meaning(d, opt) == Rfc(d, 1, opt)
=============================================================================
