---- MODULE Luxbeam ----
(***************************************************************************)
(* The Luxbeam device as its controller drives it (C15, C17): a sequencer     *)
(* that interprets a program over frame memory, variables and registers, and  *)
(* is started, stopped, reset and triggered from outside.  Frames are tokens   *)
(* (-t is the complement of t, 0 is anything unknown).                        *)
(*  Instructions: [i, v, k, t, rv, rk] with operand value (rv) + rk:           *)
(*   rv = -1 constant, rv >= 100 register rv - 100, otherwise variable rv.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NMEM == 40
LuxInit(inv) == [prog |-> << >>, pc |-> 1, vars |-> [i \in 0..7 |-> 0], regs |-> [i \in 0..7 |-> 0], mem |-> [i \in 0..NMEM |-> 0],
                 buf |-> 0, shown |-> 0, run |-> FALSE, rst |-> FALSE, lvl |-> [software |-> 0, electrical |-> 0, optical |-> 0],
                 inv |-> inv, given |-> 0, runaway |-> FALSE]
Active(d) == d.run /\ ~d.rst
Opd(d, q) == q.rk + (IF q.rv = -1 THEN 0 ELSE IF q.rv >= 100 THEN d.regs[q.rv - 100] ELSE d.vars[q.rv])
Frame(d, a) == IF a \in 0..NMEM THEN d.mem[a] ELSE 0
\* execute until the sequencer waits for a trigger (or the program ends or does not stop within fuel steps)
RECURSIVE Exec(_, _)
Exec(d, fuel) ==
  IF ~Active(d) \/ d.pc \notin 1..Len(d.prog) THEN d
  ELSE IF fuel = 0 THEN [d EXCEPT !.runaway = TRUE]
  ELSE LET q == d.prog[d.pc]  nx == [d EXCEPT !.pc = @ + 1] IN
  CASE q.i = "trig" -> d
    [] q.i = "jmp"  -> Exec([d EXCEPT !.pc = q.t], fuel - 1)
    [] q.i = "set"  -> Exec([nx EXCEPT !.vars[q.v] = Opd(d, q)], fuel - 1)
    [] q.i = "jge"  -> Exec(IF d.vars[q.v] >= Opd(d, q) THEN [d EXCEPT !.pc = q.t] ELSE nx, fuel - 1)
    [] q.i = "load" -> Exec([nx EXCEPT !.buf = Frame(d, Opd(d, q))], fuel - 1)
    [] q.i = "show" -> Exec([nx EXCEPT !.shown = IF d.inv THEN -d.buf ELSE d.buf], fuel - 1)
    [] OTHER        -> Exec(nx, fuel - 1)
Fuel == 400
Go(d) == Exec(d, Fuel)
Bit(s, src) == CASE src = "software" -> s % 2 = 1 [] src = "electrical" -> (s \div 2) % 2 = 1 [] OTHER -> (s \div 4) % 2 = 1
\* a trigger line changes level; triggers are rising edges
Level(d, src, v) ==
  LET e == [d EXCEPT !.lvl[src] = v]  rise == d.lvl[src] = 0 /\ v = 1  fall == d.lvl[src] = 1 /\ v = 0
      f == IF rise /\ Active(d) THEN [e EXCEPT !.given = @ + 1] ELSE e
  IN IF Active(f) /\ f.pc \in 1..Len(f.prog) /\ f.prog[f.pc].i = "trig"
     THEN LET q == f.prog[f.pc] IN
          IF Bit(q.k, src) /\ ((rise /\ q.v = 1) \/ (fall /\ q.v = 0) \/ (v = 1 /\ q.v = 3) \/ (v = 0 /\ q.v = 2)) THEN Go([f EXCEPT !.pc = @ + 1]) ELSE f
     ELSE f
LuxCall(d, c) ==
  IF ~c.eff THEN d ELSE
  CASE c.fn = "env"   -> Level(d, c.src, c.level)
    [] c.fn = "sync"  -> Level(d, "software", c.level)
    [] c.fn = "state" -> IF c.cmd = "run" THEN Go([d EXCEPT !.run = c.on, !.given = IF c.on /\ ~d.run THEN 0 ELSE @])
                         ELSE IF c.cmd = "reset" THEN Go(IF c.on THEN [d EXCEPT !.rst = TRUE, !.pc = 1, !.given = 0] ELSE [d EXCEPT !.rst = FALSE, !.given = 0]) ELSE d
    [] c.fn = "seq"   -> [d EXCEPT !.prog = c.prog, !.pc = 1]
    [] c.fn = "reg"   -> IF c.no \in 0..7 THEN [d EXCEPT !.regs[c.no] = c.val] ELSE d
    [] c.fn = "img"   -> IF c.inum \in 0..NMEM THEN [d EXCEPT !.mem[c.inum] = c.tok] ELSE d
    [] OTHER          -> d
\* a frame is written while the sequencer runs
LuxHazard(d, c) == c.fn = "img" /\ Active(d)

Inv(F, inv) == [i \in 1..Len(F) |-> IF inv THEN -F[i] ELSE F[i]]
Src(j) == CASE j % 3 = 0 -> "electrical" [] j % 3 = 1 -> "software" [] OTHER -> "optical"
Pulse(d, src) == Level(Level([d EXCEPT !.lvl[src] = 0], src, 1), src, 0)
\* the device shows F from position k on, one frame per trigger, cyclically
RECURSIVE Cycles(_, _, _, _)
Cycles(d, F, k, j) == /\ d.shown = F[(k % Len(F)) + 1]
                      /\ j = 0 \/ Cycles(Pulse(d, Src(j)), F, k + 1, j - 1)
LuxShows(d, F) == Active(d) /\ ~d.runaway /\ Cycles(d, F, d.given, Len(F) + 2)
\* the software line is low, so that the next software trigger is a rising edge
LuxReady(d) == d.lvl["software"] = 0

\* --- the controller's own call sequences, for the design model ---------------
St(cmd, on) == [fn |-> "state", cmd |-> cmd, on |-> on, eff |-> TRUE]
Reg(v) == [fn |-> "reg", no |-> 0, val |-> v, eff |-> TRUE]
Img(i, t) == [fn |-> "img", inum |-> i, tok |-> t, eff |-> TRUE]
I(i, v, k, t, rv, rk) == [i |-> i, v |-> v, k |-> k, t |-> t, rv |-> rv, rk |-> rk]
Prog == << I("load", -1, 0, 0, -1, 0), I("set", 0, 0, 0, -1, 0), I("jge", 0, 0, 9, 100, 0), I("show", -1, 0, 0, -1, 0),
           I("load", -1, 0, 0, 0, 1), I("trig", 1, 7, 0, -1, 0), I("set", 0, 0, 0, 0, 1), I("jmp", -1, 0, 3, -1, 0), I("jmp", -1, 0, 1, -1, 0) >>
LuxOpen == << St("run", FALSE), St("reset", TRUE), [fn |-> "seq", prog |-> Prog, eff |-> TRUE], Reg(1), St("reset", FALSE) >>
LuxLoad(F) == << St("run", FALSE), St("reset", TRUE), Reg(Len(F)), St("reset", FALSE) >> \o [i \in 1..Len(F) |-> Img(i - 1, F[i])] \o << St("run", TRUE) >>
LuxFire == << [fn |-> "sync", level |-> 1, eff |-> TRUE], [fn |-> "sync", level |-> 0, eff |-> TRUE] >>
====
