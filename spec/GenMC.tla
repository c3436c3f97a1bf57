------------------------------- MODULE GenMC --------------------------------
(***************************************************************************)
(* All scripts that the grammar derives with at most Budget deviations     *)
(* from the default choices (the kind of the first statement is free).     *)
(***************************************************************************)
EXTENDS Gen, Json, IOUtils
VARIABLES T, m, b
Budget == atoi(IOEnv.GBUDGET)
MaxPos == 60
Part   == atoi(IOEnv.GPART)      \* only first choices congruent to Part modulo Parts
Parts  == atoi(IOEnv.GPARTS)

OptsAt(T1_, m1) ==
  LET fr == m1.ctl IN
  IF Len(fr) = 0 \/ fr[2] > Len(fr[1]) THEN <<T1_>>
  ELSE Options(T1_, m1, fr[1][fr[2]], IF fr[2] < Len(fr[1]) THEN fr[1][fr[2] + 1] ELSE <<"">>, fr[3])
(* run to the next choice: <<T, m, options>>, options empty at the end *)
RECURSIVE Slide(_, _, _)
Slide(t, mm, k) ==
  LET t1 == Grow(t, mm.pos + 8)  os == OptsAt(t1, mm) IN
  IF mm.st # "run" \/ ~mm.wf \/ mm.pos > MaxPos \/ k = 0 THEN <<t1, mm>>
  ELSE IF Len(os) = 1 THEN Slide(os[1], Step(os[1], mm), k - 1)
  ELSE <<t1, mm>>
RECURSIVE Go(_, _)
Go(t, mm) == LET r == Slide(t, mm, 40) IN
             IF r[2].st = "run" /\ r[2].wf /\ r[2].pos <= MaxPos /\ Len(OptsAt(Grow(r[1], r[2].pos + 8), r[2])) = 1 THEN Go(r[1], r[2]) ELSE r

TextsOf(t) == Texts([T |-> t])
Init == LET r == Go(Grow(<<>>, 12), MInit) IN T = r[1] /\ m = r[2] /\ b = -1
Next == /\ m.st = "run" /\ m.pos <= MaxPos
        /\ m.wf
        /\ LET os == OptsAt(T, m) IN
           \E k \in 1..Len(os) :
             /\ b = -1 => k % Parts = Part
             /\ b' = (IF b = -1 THEN Budget ELSE IF k = 1 THEN b ELSE b - 1)
             /\ b' >= 0
             /\ LET r == Go(os[k], Step(os[k], m)) IN
                /\ T' = r[1] /\ m' = r[2]
                /\ IF r[2].st = "done" /\ IOEnv.GPRINT = "1" THEN PrintT("G " \o (IF r[2].wf THEN "1 " ELSE "0 ") \o ToJson(TextsOf(r[1]))) ELSE TRUE
Spec == Init /\ [][Next]_<<T, m, b>>
=============================================================================
