---- MODULE Alp ----
(***************************************************************************)
(* The ALP device as its controller drives it (C16, C17): sequences in        *)
(* onboard memory, a projection mode, a trigger edge, inversion, and a        *)
(* running sequence.  Frames are tokens as in Luxbeam.  Opening the device     *)
(* sets the vendor's defaults: master mode, falling edge, no inversion, dark   *)
(* time between binary frames, a long picture time.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NSEQ == 60
NoSeq == [nb |-> 0, depth |-> 0, bin |-> "ALP_BIN_NORMAL", pt |-> "default", frames |-> << >>, full |-> TRUE]
AlpInit == [open |-> FALSE, run |-> FALSE, loop |-> FALSE, cur |-> 0, mode |-> "ALP_MASTER", edge |-> "ALP_EDGE_FALLING", inv |-> FALSE,
            seqs |-> [i \in 1..NSEQ |-> NoSeq], lvl |-> 0, edges |-> 0, given |-> 0]
Allocated(d) == { i \in 1..NSEQ : d.seqs[i].nb > 0 }
AlpEdge(d, v) ==
  LET e == [d EXCEPT !.lvl = v]  rise == d.lvl = 0 /\ v = 1  fall == d.lvl = 1 /\ v = 0
      hit == (rise /\ d.edge = "ALP_EDGE_RISING") \/ (fall /\ d.edge = "ALP_EDGE_FALLING")
      f == IF rise /\ d.run THEN [e EXCEPT !.given = @ + 1] ELSE e
  IN IF d.run /\ hit THEN [f EXCEPT !.edges = @ + 1] ELSE f
Known(d, c) == c.id \in 1..NSEQ /\ d.seqs[c.id].nb > 0
AlpCall(d, c) ==
  IF ~c.eff THEN d ELSE
  CASE c.fn = "env"  -> AlpEdge(d, c.level)
    [] c.fn = "init" -> [AlpInit EXCEPT !.open = TRUE, !.lvl = d.lvl]
    [] c.fn = "free" -> [AlpInit EXCEPT !.lvl = d.lvl]
    [] c.fn = "halt" -> [d EXCEPT !.run = FALSE]
    [] c.fn = "proj" -> IF c.typ = "ALP_PROJ_MODE" THEN [d EXCEPT !.mode = IF c.val = "0" THEN "ALP_MASTER" ELSE c.val]
                        ELSE IF c.typ = "ALP_PROJ_INVERSION" THEN [d EXCEPT !.inv = c.val = "1"] ELSE d
    [] c.fn = "dev"  -> IF c.typ = "ALP_TRIGGER_EDGE" THEN [d EXCEPT !.edge = IF c.val = "0" THEN "ALP_EDGE_FALLING" ELSE c.val] ELSE d
    [] c.fn = "alloc" -> IF c.id \in 1..NSEQ /\ c.nb > 0 THEN [d EXCEPT !.seqs[c.id] = [NoSeq EXCEPT !.nb = c.nb, !.depth = c.depth, !.frames = [i \in 1..c.nb |-> 0]]] ELSE d
    [] c.fn = "seqctl" -> IF Known(d, c) /\ c.typ = "ALP_BIN_MODE" THEN [d EXCEPT !.seqs[c.id].bin = IF c.val = "0" THEN "ALP_BIN_NORMAL" ELSE c.val] ELSE d
    [] c.fn = "put" -> IF Known(d, c) THEN [d EXCEPT !.seqs[c.id].frames = [i \in 1..d.seqs[c.id].nb |-> IF (i - c.off) \in 1..Len(c.toks) THEN c.toks[i - c.off] ELSE @[i]],
                                                     !.seqs[c.id].full = @ /\ c.full /\ c.complete] ELSE d
    [] c.fn = "timing" -> IF Known(d, c) THEN [d EXCEPT !.seqs[c.id].pt = c.pt] ELSE d
    [] c.fn = "run" -> IF Known(d, c) THEN [d EXCEPT !.run = TRUE, !.cur = c.id, !.loop = c.loop, !.edges = 0, !.given = 0] ELSE d
    [] c.fn = "freeseq" -> IF Known(d, c) THEN [d EXCEPT !.seqs[c.id] = NoSeq, !.run = @ /\ d.cur # c.id] ELSE d
    [] OTHER -> d
\* memory changed while the device displays
AlpHazard(d, c) == c.fn \in {"alloc", "put", "freeseq"} /\ d.run

Cur(d) == d.seqs[d.cur]
Sgn(d, t) == IF d.inv THEN -t ELSE t
Continuous(q) == q.bin = "ALP_BIN_UNINTERRUPTED" /\ q.full /\ q.depth = 1
\* a frame displayed for good, no trigger needed
AlpStill(d, t) == d.run /\ d.mode = "ALP_MASTER" /\ d.loop /\ Cur(d).nb = 1 /\ Continuous(Cur(d)) /\ Sgn(d, Cur(d).frames[1]) = t
\* frame displayed after n edges of the trigger (0: none)
AlpAt(d, n) == IF n = 0 \/ (~d.loop /\ n > Cur(d).nb) THEN 0 ELSE Sgn(d, Cur(d).frames[((n - 1) % Cur(d).nb) + 1])
AlpCycles(d, F) ==
  /\ d.run /\ d.mode = "ALP_SLAVE" /\ Continuous(Cur(d)) /\ Cur(d).pt = "min" /\ Cur(d).nb = Len(F) /\ d.edge = "ALP_EDGE_RISING"
  /\ d.edges = d.given
  /\ \A k \in 0..(Len(F) + 2) : (d.edges + k > 0) => AlpAt(d, d.edges + k) = F[((d.given + k - 1) % Len(F)) + 1]
AlpShows(d, kind, F) == IF kind = "single" THEN AlpStill(d, F[1]) ELSE AlpCycles(d, F)

\* --- the controller's own call sequences, for the design model ---------------
A(fn) == [fn |-> fn, eff |-> TRUE]
Proj(t, v) == [fn |-> "proj", typ |-> t, val |-> v, eff |-> TRUE]
AlpOpen(inv) == << A("init") >> \o (IF inv THEN << Proj("ALP_PROJ_INVERSION", "1") >> ELSE << >>)
\* old: the allocated sequence (0: none), new: the next one
AlpFreeOld(old) == IF old = 0 THEN << >> ELSE << [fn |-> "freeseq", id |-> old, eff |-> TRUE] >>
AlpFill(new, F) == << [fn |-> "alloc", id |-> new, nb |-> Len(F), depth |-> 1, eff |-> TRUE],
                      [fn |-> "seqctl", id |-> new, typ |-> "ALP_BIN_MODE", val |-> "ALP_BIN_UNINTERRUPTED", eff |-> TRUE],
                      [fn |-> "put", id |-> new, off |-> 0, full |-> TRUE, complete |-> TRUE, toks |-> F, eff |-> TRUE] >>
AlpSingle(old, new, F) == << A("halt"), Proj("ALP_PROJ_MODE", "ALP_MASTER") >> \o AlpFreeOld(old) \o AlpFill(new, F)
   \o << [fn |-> "timing", id |-> new, pt |-> "default", eff |-> TRUE], [fn |-> "run", id |-> new, loop |-> TRUE, eff |-> TRUE] >>
AlpMultiple(old, new, F) == << A("halt"), Proj("ALP_PROJ_MODE", "ALP_SLAVE"), [fn |-> "dev", typ |-> "ALP_TRIGGER_EDGE", val |-> "ALP_EDGE_RISING", eff |-> TRUE] >>
   \o AlpFreeOld(old) \o AlpFill(new, F)
   \o << [fn |-> "timing", id |-> new, pt |-> "min", eff |-> TRUE], [fn |-> "run", id |-> new, loop |-> TRUE, eff |-> TRUE] >>
AlpClose(old) == << A("halt") >> \o AlpFreeOld(old) \o << A("free") >>
====
