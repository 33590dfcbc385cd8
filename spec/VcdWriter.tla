----------------------------- MODULE VcdWriter ------------------------------
(***************************************************************************)
(* What the code table writer is asked for and what a window must mean.     *)
(* A request is <<1, bytes>> (add), <<2, n, byte>> (run) or <<3, address, n>>*)
(* (copy; addresses count from the start of the dictionary, target data of    *)
(* the window following it).                                                *)
(***************************************************************************)
EXTENDS VcdDecoder

Effect(dict, win, r) ==
  CASE r[1] = ADD -> win \o r[2]
    [] r[1] = RUN -> win \o RunBytes(r[3], r[2])
    [] r[1] = COPY -> IF r[3] = 0 THEN win ELSE win \o CopyBytes(dict, win, r[2], r[3])
Effects(dict, reqs) == FoldLeft(LAMBDA w, r : Effect(dict, w, r), <<>>, reqs)

\* A decoder behind the file header.
AtWindows(dict, tab, near, same) ==
  [Fresh EXCEPT !.on = TRUE, !.dict = dict, !.stage = "windows", !.ext = TRUE, !.maxFile = MaxInt31, !.maxWin = MaxInt31,
                !.near = near, !.same = same]

\* w is exactly one window, of the layout asked for, carrying the checksum ck (<<>>: none), that produces win.
\* The checksum is whatever the caller supplied: whether it is right is none of the writer's business.
WindowMeans(dict, tab, near, same, inter, ck, win, w) ==
  IF win = <<>> THEN w = <<>>
  ELSE IF w = <<>> THEN FALSE
  ELSE LET h == WinHeader(AtWindows(dict, tab, near, same), w, 1)
       IN IF h.st # "ok" THEN FALSE
          ELSE LET i0 == h.p + h.dl   a0 == i0 + h.il   end == a0 + h.al
                   env == [tab |-> tab, near |-> near, same |-> same, src |-> h.src, tlen |-> h.tlen, inter |-> inter]
                   r == RunBody(env, w, [ip |-> i0, ie |-> a0 - 1, dp |-> h.p, de |-> i0 - 1, ap |-> a0, ae |-> end - 1,
                                         pend |-> NoPend, cache |-> CacheInit(near), win |-> <<>>])
               IN /\ end = Len(w) + 1
                  /\ inter => h.dl = 0 /\ h.al = 0
                  /\ ~inter => ~h.inter
                  /\ h.ck = ck
                  /\ h.tlen = Len(win)
                  /\ r.st = "ok" /\ r.s.win = win /\ r.s.ip = a0 /\ r.s.pend = NoPend
                  /\ ~inter => r.s.dp = i0 /\ r.s.ap = end
=============================================================================
