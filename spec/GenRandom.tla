----------------------------- MODULE GenRandom ------------------------------
(***************************************************************************)
(* Random derivations of the grammar, printed as "G <0|1> [tokens]".       *)
(***************************************************************************)
EXTENDS Gen, Json, IOUtils
VARIABLE n
Seed  == atoi(IOEnv.GSEED)
Count == atoi(IOEnv.GCOUNT)
Salt  == atoi(IOEnv.GSALT)
(* the first word of the scripts, taken in turn (a JSON file); empty: any *)
Starts == IF IOEnv.GSTART = "" THEN <<>> ELSE JsonDeserialize(IOEnv.GSTART)
Pc(k) == <<25, 12, 40, 18, 30, 8>>[1 + (k % 6)]
M(k) == <<25, 40, 15, 60>>[1 + ((k \div 6) % 4)]
Start(k) == IF Len(Starts) = 0 THEN <<>> ELSE <<Word(Open(1), Starts[1 + (k % Len(Starts))])>>
One(k) == GRun(GInit((Seed % 3001) * 1009 + (Salt % 90001) + k, Start(k)), Pc(k), M(k))
Init == n = 0
Next == /\ n < Count
        /\ n' = n + 1
        /\ LET g == One(n) IN IF g.m.st = "done" THEN PrintT("G " \o (IF g.m.wf THEN "1 " ELSE "0 ") \o ToJson(Texts(g))) ELSE TRUE
Spec == Init /\ [][Next]_n
=============================================================================
