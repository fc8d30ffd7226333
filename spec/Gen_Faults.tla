---- MODULE Gen_Faults ----
(* Every fault position: open, load, a load (or opening, closing, trigger) with a fault at call k, another load, triggers. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES hist
KIND == IOEnv.KIND
MAXK == atoi(IOEnv.MAXK)
Pl(op) == [op |-> op, cid |-> 1, env |-> << >>, fk |-> -1, fv |-> "lost"]
Ld(F, s) == Pl(IF s THEN "single" ELSE "multi") @@ [F |-> F]
Ext(n) == [op |-> "ext", cid |-> 1, env |-> [j \in 1..n |-> [at |-> 0, src |-> "electrical"]]]
Firsts == { Ld(<<1>>, TRUE), Ld(<<2, 3, 4>>, FALSE) }
Bad == { Ld(<<5>>, TRUE), Ld(<<6, 7>>, FALSE), Ld(<<8, 9, 10, 11>>, FALSE), Pl("init"), Pl("close"), Pl("fire"), Pl("nx"), Pl("number") @@ [n |-> 5] }
Again == { Ld(<<12>>, TRUE), Ld(<<6, 9, 1>>, FALSE) }
Hists == { << [op |-> "new", cid |-> 1, kind |-> KIND, inv |-> inv, size |-> "small"], Pl("init"), a, Ext(n), [b EXCEPT !.fk = k, !.fv = v], Ext(1), Pl("init"), c, Ext(2), Ld(<<3, 2>>, FALSE) >> :
            inv \in {TRUE, FALSE}, a \in Firsts, n \in {0, 2}, b \in Bad, k \in 0..MAXK, v \in (IF KIND = "alp" THEN {"lost"} ELSE {"lost", "late"}), c \in Again }
\* also without the second opening, and with a failing first opening
Short(h) == IF h[5].op \in {"init", "close"} THEN h ELSE SubSeq(h, 1, 6) \o SubSeq(h, 8, 10)
First == { << [op |-> "new", cid |-> 1, kind |-> KIND, inv |-> inv, size |-> "small"], [Pl("init") EXCEPT !.fk = k], b, Ext(1), Pl("init"), b, Ext(1) >> : inv \in {TRUE, FALSE}, k \in 0..MAXK, b \in Bad }
All == { Short(h) : h \in Hists } \cup First
Init == hist \in All
Next == UNCHANGED hist
Out == PrintT("HIST " \o ToJson(hist))
====
