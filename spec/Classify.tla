------------------------------ MODULE Classify ------------------------------
(* How the specification classifies texts: "C [line, outcome, well-formed]".  Used to select inputs. *)
EXTENDS Tree, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Class(src) == LET x == Lex(src) IN
  IF x.st # "done" THEN <<"lexerr", FALSE>> ELSE LET m == Parse(Code(x.toks)) IN <<m.st, m.wf>>
Init == l = 0
Next == l < Len(Log) /\ l' = l + 1 /\ LET c == Class(Log[l + 1].rs[1].src) IN PrintT("C " \o ToJson(<<l + 1, c[1], c[2]>>))
Spec == Init /\ [][Next]_l
=============================================================================
