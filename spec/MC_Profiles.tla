---- MODULE MC_Profiles ----
(* Design level check: assigning a parameter changes exactly the nodes built on that leaf. *)
EXTENDS Profiles, IOUtils
Z == VInt(0)
Cs == {<<1, 0, 1, 0>>, <<0, 2, 1, 0>>}
MaxN == IF "MAXN" \in DOMAIN IOEnv THEN atoi(IOEnv.MAXN) ELSE 3
Pts == {<<VInt(0), VInt(0)>>, <<VInt(1), VInt(2)>>}
Ix == 1..Len(nodes)
Next ==
  \/ /\ Len(nodes) < MaxN
     /\ \/ \E c \in Cs : Make([op |-> "const", c |-> c, cx |-> c[2] # 0])
        \/ Make([op |-> "circ", x0 |-> Z, y0 |-> Z, r |-> VRat(10, 7)])
        \/ Make([op |-> "zern", n |-> 1, m |-> 1, r |-> VInt(1), a |-> VInt(1)])
        \/ \E i, j \in Ix, o \in {"add", "sub", "mul", "div"} : Make([op |-> o, i |-> i, j |-> j])
        \/ \E i \in Ix : Make([op |-> "shift", i |-> i, dx |-> VInt(1), dy |-> VInt(-1)])
        \/ \E i \in Ix, k \in {2, 5} : Make([op |-> "rot", i |-> i, k |-> k])
        \/ \E i \in Ix : Make([op |-> "rsx", i |-> i, c |-> VInt(2)])
        \/ \E i \in Ix : Make([op |-> "neg", i |-> i])
        \/ \E i \in Ix : Make([op |-> "cis", i |-> i])
        \/ \E i, j \in Ix : Make([op |-> "cis2", i |-> i, j |-> j])
  \/ \E i \in Ix :
        \/ nodes[i].op = "const" /\ ~nodes[i].cx /\ Set(i, "c", VInt(3))
        \/ nodes[i].op = "circ" /\ Set(i, "x0", VInt(2))
        \/ nodes[i].op = "zern" /\ Set(i, "a", VInt(-2))
Spec == PInit /\ [][Next]_nodes
Same(i) == \A p \in Pts : Value(nodes, i, p[1], p[2]) = Value(nodes', i, p[1], p[2])
\* building never changes an existing node's value; assigning changes only nodes built on that leaf
Local == [][\A i \in 1..Len(nodes) :
             (\A k \in Support(nodes, i) : nodes'[k] = nodes[k]) => Same(i)]_nodes
Kinds == \A i \in Ix, p \in Pts :
           LET v == Value(nodes, i, p[1], p[2]) IN (v # U /\ ~Cplx(nodes, i)) => v[2] = 0
\* transformations act on the point: identities of the plane
Laws == \A i \in Ix, p \in Pts :
   LET nd == nodes[i] x == p[1] y == p[2] IN
   nd.op = "shift" => LET a == Value(nodes, i, VAdd(x, nd.dx), VAdd(y, nd.dy))
                          b == Value(nodes, nd.i, x, y)
                      IN (a = U \/ b = U) \/ <<a[1],a[2],a[3]>> = <<b[1],b[2],b[3]>>
====
