---- MODULE Gen_Device ----
(* Random histories of Device.  MODE: "cmd" (commands), "pack" (binary states), "sim" (simulations). *)
EXTENDS Device, Json, IOUtils
VARIABLE hist
DEPTH == atoi(IOEnv.DEPTH)
MODE  == IOEnv.MODE
R(S) == RandomElement(S)
Init == DInit /\ hist = << >>
Emit(e) == hist' = Append(hist, e)
Sizes == {1, 2, 3, 4, 5, 6, 8}
Totals == {1, 2, 3, 4, 5, 6, 8, 10, 12}
Vecs == { <<1,0>>, <<0,1>>, <<1,1>>, <<-1,0>>, <<0,-1>>, <<1,-1>>, <<2,1>>, <<-1,2>>, <<3,1>>, <<-2,-1>> }
Ms   == {3, 4, 5, 6, 8, 10, 12}
NewQ(z) == LET v == R(Vecs) IN
  IF MODE \in {"sim", "block"} /\ R(1..2) = 1 THEN
    \* everything a binary fraction: the edge of a blocked disk is decided exactly
    [kind |-> "dmd", Nx |-> R({2, 4, 8, 8}), Ny |-> R({2, 4, 8, 8}), ga |-> R({1, -1}), gb |-> 0, M |-> R({4, 8}), neg |-> R({TRUE, FALSE})]
  ELSE [kind |-> IF MODE = "sim" /\ R(1..3) = 1 THEN "lcos" ELSE "dmd", Nx |-> R(Sizes), Ny |-> R(Sizes),
   ga |-> v[1], gb |-> v[2], M |-> R(Ms), neg |-> R({TRUE, FALSE})]
Const(S, m) == [a |-> R(S), b |-> 0, c |-> 0, m |-> m]
Map(m) == [a |-> R(0..(m-1)), b |-> R(0..(m-1)), c |-> R(0..(m-1)), m |-> m]
AMap(method) == LET m == IF method = "steep" THEN 61 ELSE 17 IN
   IF R(1..2) = 1 THEN Map(m) ELSE Const({0, m-1, m-1, m \div 2, m \div 3}, m)
PMap(z) == IF R(1..2) = 1 THEN Map(240) ELSE Const({0, 0, 60, 120, 37, 200}, 240)
Meth(z) == IF MODE = "pack" THEN R({"simple", "steep", "simple", "steep", "ideal"}) ELSE R({"ideal", "simple", "steep"})
Reject == {"grating_method", "patch_method", "calc_method", "ifta_grating", "ifta_patch", "ifta_calc", "missing_target", "missing_amp"}
Cmd(g) == LET d == R(1..16)  m == Meth(d) IN
  IF g.kind = "lcos" THEN
     (IF d <= 10 THEN [op |-> "assign", form |-> "phase", map |-> Map(240)]
      ELSE IF d <= 13 THEN [op |-> "reset"]
      ELSE [op |-> "poke", r |-> R(0..(g.Ny-1)), c |-> R(0..(g.Nx-1)), v |-> R(0..239)])
  ELSE CASE d = 1 -> [op |-> "on"]
    [] d = 2 -> [op |-> "off"]
    [] d \in {3, 4, 5} -> [op |-> "grating", method |-> m, amp |-> AMap(m), pin |-> PMap(d), pout |-> PMap(d)]
    [] d = 10 /\ R(1..2) = 1 -> \* a large disc centred far outside, whose edge crosses the array
         LET far == R({120, 333, 800}) side == R(1..4) IN
         [op |-> "patch", method |-> m, amp |-> AMap(m), pin |-> PMap(d), pout |-> PMap(d),
          i2 |-> CASE side = 1 -> -far [] side = 2 -> 2 * g.Ny + far [] OTHER -> R(0..(2*g.Ny)),
          j2 |-> CASE side = 3 -> -far [] side = 4 -> 2 * g.Nx + far [] OTHER -> R(0..(2*g.Nx)),
          d2 |-> 2 * far + R(0..(4 * (IF side <= 2 THEN g.Ny ELSE g.Nx)))]
    [] d \in {6, 7, 8, 9, 10} -> [op |-> "patch", method |-> m, amp |-> AMap(m), pin |-> PMap(d), pout |-> PMap(d),
                   i2 |-> R(-2..(2*g.Ny)), j2 |-> R(-2..(2*g.Nx)), d2 |-> R(0..(g.Nx + g.Ny + 4))]
    [] d \in {11, 12} -> [op |-> "calc", method |-> m, R |-> R(0..(g.Ny-1)), C |-> R(0..(g.Nx-1)), pin |-> PMap(d)]
    [] d \in {13, 14} -> [op |-> "assign", form |-> IF MODE = "pack" THEN R({"bool", "bool", "bool", "int"}) ELSE IF MODE = "cmd" THEN R({"bool", "bool", "gray", "gray", "int"}) ELSE R({"bool", "gray"}), map |-> Map(17)]
    [] d = 15 /\ g.bin -> [op |-> "poke", r |-> R(0..(g.Ny-1)), c |-> R(0..(g.Nx-1)), v |-> R({0, 1})]
    [] OTHER -> [op |-> "reject", what |-> R(Reject)]
\* ties are resolved by the observation; the generator only needs to know whether the state is binary
DoCmd(d) == \E e \in {Cmd(devs[d])} :
  /\ devs' = [devs EXCEPT ![d].bin = WantBin(devs[d], e)]
  /\ UNCHANGED sims
  /\ Emit(e @@ [d |-> d])
Inp(z) == [re |-> Map(7), im |-> Map(7), off |-> 3]
Pads(n) == {(t - n) \div 2 : t \in {u \in Totals : u >= n /\ (u - n) % 2 = 0}}
Cuts == { <<0,1>>, <<9,64>>, <<1,4>>, <<1,9>>, <<1,16>>, <<1,36>>, <<2,25>>, <<1,3>>, <<1,64>>, <<4,9>>, <<1,1>> }
\* two radii in a row without a propagation in between
Blk(i) == i > 0 /\ hist[i].op = "block" /\ sims[hist[i].k].cls = "dmd" /\ sims[hist[i].k].snap # << >>
Again(z) == Blk(Len(hist)) /\ R(1..4) > 1
BlockAgain(k) ==
  IF Len(hist) > 1 /\ Blk(Len(hist) - 1) THEN UNCHANGED <<devs, sims>> /\ Emit([op |-> "read", k |-> k, scribble |-> FALSE]) ELSE \E c \in {R({<<0,1>>, <<1,64>>, <<1,49>>, <<1,36>>, <<1,16>>, <<9,64>>, <<1,9>>})} :
   UNCHANGED <<devs, sims>> /\ Emit([op |-> "block", k |-> k, dflt |-> FALSE, cut |-> c])
SimStep(k) == LET d == R(1..12) s == sims[k] g == devs[s.dev] IN
  CASE d \in {1, 2, 3, 4} -> \E e \in {Inp(d)} : sims' = [sims EXCEPT ![k].snap = << 1 >>] /\ UNCHANGED devs /\ Emit([op |-> "prop", k |-> k] @@ e)
    [] d = 5 -> sims' = [sims EXCEPT ![k].snap = << >>] /\ UNCHANGED devs /\ Emit([op |-> "clear", k |-> k])
    [] d \in {6, 7, 8} -> \E b \in {R({TRUE, FALSE})}, c \in {R(Cuts)} : /\ UNCHANGED <<devs, sims>>
                            /\ Emit([op |-> "block", k |-> k, dflt |-> b /\ g.kind = "dmd", cut |-> IF b /\ g.kind = "dmd" THEN DefaultCut(g) ELSE IF R(1..2) = 1 THEN R({<<1,64>>, <<1,16>>, <<1,4>>, <<9,64>>, <<1,4>>}) ELSE c])
    [] OTHER -> UNCHANGED <<devs, sims>> /\ Emit([op |-> "read", k |-> k, scribble |-> R({TRUE, FALSE})])
\* MODE "block": one or two devices, propagations followed by blocking and reading in turn
LastOp == hist[Len(hist)].op
Radius(g) == LET i == R(1..10) IN IF i <= 3 THEN DefaultCut(g) ELSE IF i = 4 THEN <<0, 1>> ELSE IF i <= 7 THEN R({<<1,64>>, <<1,16>>, <<1,4>>, <<9,64>>, <<4,64>>}) ELSE R(Cuts)
BlockCut(k, c) == Emit([op |-> "block", k |-> k, dflt |-> c = DefaultCut(devs[sims[k].dev]) /\ R(1..4) > 1, cut |-> c])
BlockStep(d, i) ==
  IF devs = << >> THEN \E q \in {[NewQ(d) EXCEPT !.kind = "dmd"]} : devs' = Append(devs, q @@ [bin |-> TRUE]) /\ UNCHANGED sims /\ Emit([op |-> "newdev", q |-> q])
  ELSE IF Len(hist) = 1 THEN DoCmd(1)
  ELSE IF Len(sims) < 1 \/ (Len(sims) < 2 /\ d = 1) THEN
    LET g == devs[1] IN
    \E even \in {R({TRUE, FALSE})} :
      \E px \in {R(IF even /\ g.Nx \in {2, 4, 8} THEN {(8 - g.Nx) \div 2} ELSE Pads(g.Nx))},
         py \in {R(IF even /\ g.Ny \in {2, 4, 8} THEN {(8 - g.Ny) \div 2} ELSE Pads(g.Ny))} :
        NewSim(1, px, py, "dmd") /\ Emit([op |-> "newsim", d |-> 1, px |-> px, py |-> py, cls |-> "dmd"])
  ELSE IF LastOp \in {"prop", "block"} /\ d < 12 THEN
       IF LastOp = "prop" THEN \E c \in {Radius(devs[1])} : BlockCut(hist[Len(hist)].k, c) /\ UNCHANGED <<devs, sims>>
       ELSE UNCHANGED <<devs, sims>> /\ Emit([op |-> "read", k |-> hist[Len(hist)].k, scribble |-> R({TRUE, FALSE})])
  ELSE IF LastOp = "read" /\ d <= 4 THEN \E c \in {Radius(devs[1])} : BlockCut(hist[Len(hist)].k, c) /\ UNCHANGED <<devs, sims>>
  ELSE IF d = 5 THEN DoCmd(1)
  ELSE \E k \in {R(1..Len(sims))}, e \in {Inp(d)} : sims' = [sims EXCEPT ![k].snap = << 1 >>] /\ UNCHANGED devs /\ Emit([op |-> "prop", k |-> k] @@ e)
Step(d, i) ==
  IF MODE = "block" THEN BlockStep(d, i) ELSE
  IF MODE = "sim" /\ Again(d) THEN BlockAgain(hist[Len(hist)].k)
  ELSE IF MODE = "sim" /\ Len(hist) > 0 /\ hist[Len(hist)].op = "newdev" /\ d < 10 THEN DoCmd(Len(devs))
  ELSE IF Len(devs) < 2 \/ (d = 1 /\ Len(devs) < 3) THEN \E q \in {NewQ(d)} : devs' = Append(devs, q @@ [bin |-> TRUE]) /\ UNCHANGED sims /\ Emit([op |-> "newdev", q |-> q])
  ELSE IF MODE = "sim" /\ (Len(sims) < 2 \/ (d = 2 /\ Len(sims) < 4)) THEN
      LET g == devs[i] IN
      \E even \in {R({TRUE, FALSE})} :
      \E px \in {R(IF even /\ g.Nx \in {2, 4, 8} THEN {(8 - g.Nx) \div 2} ELSE Pads(g.Nx))},
         py \in {R(IF even /\ g.Ny \in {2, 4, 8} THEN {(8 - g.Ny) \div 2} ELSE Pads(g.Ny))}, cls \in {IF g.kind = "lcos" THEN "slm" ELSE R({"dmd", "dmd", "slm"})} :
        NewSim(i, px, py, cls) /\ Emit([op |-> "newsim", d |-> i, px |-> px, py |-> py, cls |-> cls])
  ELSE IF MODE = "sim" /\ d = 3 THEN UNCHANGED <<devs, sims>> /\ Emit([op |-> "badsim", what |-> R(0..9), d |-> i])
  ELSE IF MODE = "sim" /\ d > 4 THEN SimStep(R(1..Len(sims)))
  ELSE IF MODE = "pack" /\ d <= 6 /\ devs[i].kind = "dmd" THEN UNCHANGED <<devs, sims>> /\ Emit([op |-> "pack", d |-> i])
  ELSE DoCmd(i)
Next == Len(hist) < DEPTH /\ \E d \in {R(1..12)}, i \in {R(1..Max2(1, Len(devs)))} : Step(d, i)
Out == Len(hist) < DEPTH \/ PrintT("HIST " \o ToJson(hist))
====
