---- MODULE MC_Device ----
(* Small exhaustive histories of Device: what each kind of step may change. *)
EXTENDS Device, IOUtils
MaxD == IF "MAXN" \in DOMAIN IOEnv THEN atoi(IOEnv.MAXN) ELSE 3
VARIABLE steps
vars == <<devs, sims, steps>>
K(v, m) == [a |-> v, b |-> 0, c |-> 0, m |-> m]
Cmds == { [op |-> "on"], [op |-> "off"],
  [op |-> "grating", method |-> "ideal", amp |-> K(8, 17), pin |-> K(0, 240), pout |-> K(60, 240)],
  [op |-> "grating", method |-> "simple", amp |-> K(16, 17), pin |-> K(0, 240), pout |-> K(30, 240)],
  [op |-> "patch", method |-> "ideal", amp |-> K(16, 17), pin |-> K(0, 240), pout |-> K(0, 240), i2 |-> 0, j2 |-> 2, d2 |-> 5],
  [op |-> "patch", method |-> "steep", amp |-> K(60, 61), pin |-> K(10, 240), pout |-> K(0, 240), i2 |-> 2, j2 |-> 2, d2 |-> 6] }
Fixed1(w) == [r \in DOMAIN w |-> [c \in DOMAIN w[r] |-> IF w[r][c] = -1 THEN 0 ELSE w[r][c]]]
Init == DInit /\ steps = 0
Inp == [re |-> [a |-> 3, b |-> 1, c |-> 2, m |-> 5], im |-> [a |-> 1, b |-> 2, c |-> 0, m |-> 4], off |-> 2]
Next == /\ steps < 7 /\ steps' = steps + 1
  /\ \/ Len(devs) < 2 /\ \E nx \in {2, 3}, neg \in {TRUE, FALSE} :
          NewDev([kind |-> "dmd", Nx |-> nx, Ny |-> 2, ga |-> 1, gb |-> 0, M |-> 3, neg |-> neg])
     \/ \E d \in 1..Len(devs) : Len(sims) < 2 /\ NewSim(d, 1, 0, "dmd")
     \/ \E d \in 1..Len(devs), e \in Cmds : steps < MaxD + 2 /\
            Put(d, WantBin(devs[d], e), Fixed1(WantMat(devs[d], e))) /\ UNCHANGED sims
     \/ \E k \in 1..Len(sims) : Propagate(k, Inp)
     \/ \E k \in 1..Len(sims) : Clear(k)
     \/ \E k \in 1..Len(sims) : Len(IF sims[k].snap = << >> THEN << >> ELSE sims[k].snap[1].cuts) < 2 /\ Block(k, DefaultCut(devs[sims[k].dev]))
Spec == Init /\ [][Next]_vars
\* a step changes at most one object, and a simulation only through its own propagate, clear or block
Isolation == [][ /\ Cardinality({d \in 1..Len(devs) : devs'[d] # devs[d]}) + Cardinality({k \in 1..Len(sims) : sims'[k] # sims[k]}) <= 1
                 /\ (devs' # devs => sims' = sims)
                 /\ \A k \in 1..Len(sims) : (sims[k].snap # << >> /\ sims'[k].snap # << >> /\ devs' # devs) => sims'[k] = sims[k] ]_vars
\* mirrors outside a patch keep their value
Small == steps <= MaxD + 3
====
