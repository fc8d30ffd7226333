---- MODULE MC_World ----
EXTENDS World
Next == \/ \E nx, ny \in {2, 3} : Len(objs) < 4 /\ NewDevice(nx, ny)
        \/ \E d \in 1..Len(objs), px, py \in 0..1 : Len(objs) < 4 /\ NewSimulation(d, px, py)
        \/ \E o \in 1..Len(objs) : Read(o) \/ Scribble(o)
Spec == WInit /\ [][Next]_objs
\* creating objects never changes the grid of an existing one
Stable == [][\A o \in 1..Len(objs) : objs'[o] = objs[o]]_objs
Wellformed == \A o \in 1..Len(objs) : Nested(objs[o]) /\ Oriented(objs[o])
====
