------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The parser: a deterministic machine that runs the programs of module    *)
(* Grammar over a token sequence and builds the concrete syntax tree.      *)
(*                                                                         *)
(* T     tokens without comments; the last one is the end-of-input token.  *)
(* m     machine state:                                                    *)
(*   st   "run" | "done" | "err"                                           *)
(*   pos  index of the current token                                       *)
(*   stk  value stack   <<top, rest>>   (a node or a list of nodes)        *)
(*   ctl  control stack <<code, pc, env, rest>>                            *)
(*   hs   choice points <<pos, stk, ctl, wf, code, env, rest>>             *)
(*   wf   the text consumed so far is within the language the grammar      *)
(*        describes (the parser is lenient: it also accepts text that is   *)
(*        not; no particular tree is promised for such text)               *)
(*   err  index of the token at which the script was rejected              *)
(*                                                                         *)
(* Node: t type, k index of its token (0: none), c children (a function    *)
(* from keys to nodes or lists).  List: l the sequence of its nodes.        *)
(*                                                                         *)
(* Step(T, m) is the only transition.                                      *)
(***************************************************************************)
EXTENDS Grammar, Integers, SequencesExt

KEYWORDS == {
  "ALL", "AND", "ANY", "ARRAY", "AS", "ASC", "ASSERT_ROWS_MODIFIED", "AT", "BETWEEN", "BY", "CASE", "CAST",
  "COLLATE", "CONTAINS", "CREATE", "CROSS", "CUBE", "CURRENT", "DEFAULT", "DEFINE", "DESC", "DISTINCT", "ELSE",
  "END", "ENUM", "ESCAPE", "EXCEPT", "EXCLUDE", "EXISTS", "EXTRACT", "FALSE", "FETCH", "FOLLOWING", "FOR", "FROM",
  "FULL", "GROUP", "GROUPING", "GROUPS", "HASH", "HAVING", "IF", "IGNORE", "IN", "INNER", "INTERSECT", "INTERVAL",
  "INTO", "IS", "JOIN", "LATERAL", "LEFT", "LIKE", "LIMIT", "LOOKUP", "MERGE", "NATURAL", "NEW", "NO", "NOT",
  "NULL", "NULLS", "OF", "ON", "OR", "ORDER", "OUTER", "OVER", "PARTITION", "PRECEDING", "PROTO", "QUALIFY",
  "RANGE", "RECURSIVE", "RESPECT", "RIGHT", "ROLLUP", "ROWS", "SELECT", "SET", "SOME", "STRUCT", "TABLESAMPLE",
  "THEN", "TO", "TREAT", "TRUE", "UNBOUNDED", "UNION", "UNNEST", "USING", "WHEN", "WHERE", "WINDOW", "WITH",
  "WITHIN" }

IsIdent(t) == t.d = "bq" \/ (t.d = "word" /\ t.u \notin KEYWORDS)

(* type of a node made from a single token that may be a literal; "" if it is none *)
LitType(T, i) ==
  LET t == T[i] IN
  CASE IsIdent(t)                     -> "Identifier"
    [] t.d = "num" /\ t.g             -> "NumericLiteral"
    [] t.d = "str"                    -> "StringLiteral"
    [] t.u \in {"TRUE", "FALSE"}      -> "BooleanLiteral"
    [] t.d = "param"                  -> "Parameter"
    [] t.d = "tmpl"                   -> "Template"
    [] t.u = "NULL"                   -> "NullLiteral"
    [] OTHER                          -> IF i < Len(T) /\ T[i + 1].u \in {"(", "."} THEN "Identifier"
                                         ELSE IF t.u = "DEFAULT" THEN "Keyword" ELSE "Unknown"

(* binding power of the operator at token i; -1: rejected at token i + 1 *)
Prec(T, i) ==
  LET u == T[i].u IN
  CASE u \in {"(", "["}       -> 101
    [] u = "."                -> 102
    [] u \in {"*", "/", "||"} -> 103
    [] u \in {"+", "-"}       -> 104
    [] u \in {"<<", ">>"}     -> 105
    [] u = "&"                -> 106
    [] u = "^"                -> 107
    [] u = "|"                -> 108
    [] u \in {"=", "<", ">", "<=", ">=", "!=", "<>", "LIKE", "BETWEEN", "IN", "IS"} -> 109
    [] u = "NOT"              -> IF T[i + 1].u \in {"IN", "LIKE", "BETWEEN"} THEN 109
                                 ELSE IF T[i + 1].u \in {"ENFORCED", "NULL"} THEN MAXP ELSE 0 - 1
    [] u = "AND"              -> 111
    [] u = "OR"               -> 112
    [] u = "=>"               -> 200
    [] OTHER                  -> MAXP

------------------------------------------------------------------------------
EmptyC == [x \in {} |-> 0]
Node(t, k)    == [t |-> t, k |-> k, c |-> EmptyC]
Put(n, k, v)  == [n EXCEPT !.c = (k :> v) @@ @]
HasKey(n, k)  == k \in DOMAIN n.c
MInit         == [st |-> "run", pos |-> 1, stk |-> <<>>, ctl |-> <<Rules["script"], 1, D, <<>>>>, hs |-> <<>>,
                  wf |-> TRUE, err |-> 0]

RECURSIVE Leftmost(_)
Leftmost(n) == IF n.t = "DotOperator" /\ HasKey(n, "left") THEN Leftmost(n.c["left"]) ELSE n

LastComma(v) == Len(v.l) = 0 \/ HasKey(v.l[Len(v.l)], "comma")

(* after "(" in a FROM clause: does a query follow the opening parentheses? *)
RECURSIVE QueryAhead(_, _)
QueryAhead(T, i) ==
  IF i > Len(T) THEN 2
  ELSE IF T[i].u \in {"WITH", "SELECT", "FROM"} THEN 1
  ELSE IF T[i].u = "(" THEN QueryAhead(T, i + 1) ELSE 0

(* Conditions: 1 true, 0 false, 2 the input ends before the answer is known, *)
(* 3 rejected at the token two ahead                                         *)
B(b) == IF b THEN 1 ELSE 0
RECURSIVE Cond(_, _, _, _)
Cond(T, m, env, c) ==
  LET i == m.pos IN
  CASE c[1] = "is"    -> IF i + c[2] > Len(T) THEN 2 ELSE B(T[i + c[2]].u \in c[3])
    [] c[1] = "and"   -> LET a == Cond(T, m, env, c[2]) IN IF a # 1 THEN a ELSE Cond(T, m, env, c[3])
    [] c[1] = "or"    -> LET a == Cond(T, m, env, c[2]) IN IF a # 0 THEN a ELSE Cond(T, m, env, c[3])
    [] c[1] = "not"   -> LET a == Cond(T, m, env, c[2]) IN IF a < 2 THEN 1 - a ELSE a
    [] c[1] = "only"  -> Cond(T, m, env, c[2])
    [] c[1] = "top"   -> B(env.p = MAXP)
    [] c[1] = "env"   -> B(env[c[2]])
    [] c[1] = "prec"  -> IF i + 1 > Len(T) THEN 2
                         ELSE IF T[i + 1].u = "NOT" /\ i + 2 > Len(T) THEN 2
                         ELSE LET p == Prec(T, i + 1) IN IF p < 0 THEN 3 ELSE B(p < env.p)
    [] c[1] = "ident" -> IF i + c[2] > Len(T) THEN 2 ELSE B(IsIdent(T[i + c[2]]))
    [] c[1] = "until" -> IF i + 1 > Len(T) THEN 2 ELSE B(T[i + 1].u \in env.u)
    [] c[1] = "lastcomma" -> B(LastComma(m.stk[1]))
    [] c[1] = "nil"   -> B(Len(m.stk[1].l) = 0)
    [] c[1] = "eof"   -> B(i + c[2] >= Len(T))
    [] c[1] = "has"   -> B(HasKey(m.stk[1], c[2]))
    [] c[1] = "typ"   -> B(m.stk[1].t \in c[2])
    [] c[1] = "fin"   -> B(env.f \in c[2])
    [] c[1] = "str"   -> IF i + c[2] > Len(T) THEN 2 ELSE B(T[i + c[2]].d = "str")
    [] c[1] = "num"   -> IF i + c[2] > Len(T) THEN 2 ELSE B(T[i + c[2]].d = "num" /\ T[i + c[2]].g)
    [] c[1] = "adj"   -> B(/\ T[i].d # "bq"
                           /\ i < Len(T)
                           /\ T[i + 1].u \notin {",", ".", "(", ")", ";", "|>"}
                           /\ \/ T[i].x
                              \/ T[i].l = T[i + 1].l /\ T[i].c + T[i].w = T[i + 1].c)
    [] c[1] = "pstmt" -> QueryAhead(T, i + 1)

------------------------------------------------------------------------------
(* rejection at token i: back to the latest choice point, if any *)
Reject(T, m, i) ==
  IF Len(m.hs) > 0
  THEN LET h == m.hs IN
       [m EXCEPT !.pos = h[1], !.stk = h[2], !.ctl = <<h[5], 1, h[6], h[3]>>, !.wf = h[4], !.hs = h[7]]
  ELSE [m EXCEPT !.st = "err", !.err = i]
RejectC(T, m, v) == Reject(T, m, IF v = 3 THEN m.pos + 2 ELSE Len(T))

RECURSIVE Branch(_, _, _, _, _)
Branch(T, m, env, cs, j) ==
  IF j > Len(cs) THEN <<0, 1>>
  ELSE LET v == Cond(T, m, env, cs[j][1]) IN
       IF v = 0 THEN Branch(T, m, env, cs, j + 1) ELSE <<v, j>>

(* the kind of object named within the five tokens after CREATE / ALTER *)
RECURSIVE ScanFor(_, _, _, _, _)
ScanFor(T, i, cs, o, f) ==
  IF o > 5 THEN "none"
  ELSE IF i + o > Len(T) THEN "eof"
  ELSE LET u == T[i + o].u
           hit == {j \in DOMAIN cs : u \in cs[j][1]}
       IN IF hit = {} THEN ScanFor(T, i, cs, o + 1, f)
          ELSE LET j == CHOOSE j \in hit : TRUE IN
               IF u = "TABLE" /\ f
               THEN IF i + o + 1 > Len(T) THEN "eof"
                    ELSE IF T[i + o + 1].u = "FUNCTION" THEN "cfunction" ELSE cs[j][2]
               ELSE cs[j][2]

Push(m, v)  == <<v, m.stk>>
(* what a name with dashes or templates in it is made of *)
Nameish(t)  == t.d \in {"word", "uword", "num", "tmpl"} \/ t.u = "-"
NameLike(t) == t.d \in {"bq", "word", "tmpl"}
Env2(env, e, fs) ==
  [f \in DOMAIN e |-> IF f = "p" /\ "q" \in fs THEN env.q ELSE IF f \in fs /\ f # "q" THEN env[f] ELSE e[f]]

(* control: what remains after the current instruction of fr; entering code with it as continuation *)
Rest(fr) == IF fr[2] >= Len(fr[1]) THEN fr[4] ELSE <<fr[1], fr[2] + 1, fr[3], fr[4]>>
Enter(code, env, go) == IF Len(code) = 0 THEN go ELSE <<code, 1, env, go>>

Step(T, m) ==
  LET fr == m.ctl IN
  IF Len(fr) = 0 THEN [m EXCEPT !.st = "done"]
  ELSE IF fr[2] > Len(fr[1]) THEN [m EXCEPT !.ctl = fr[4]]
  ELSE
  LET ins == fr[1][fr[2]]
      op  == ins[1]
      env == fr[3]
      i   == m.pos
      go  == Rest(fr)
      WF(b) == [m EXCEPT !.ctl = go, !.wf = @ /\ (b \/ i = Len(T))]
  IN
  CASE op = "if"   -> LET v == Cond(T, m, env, ins[2]) IN
                      IF v > 1 THEN RejectC(T, m, v)
                      ELSE [m EXCEPT !.ctl = Enter(IF v = 1 THEN ins[3] ELSE ins[4], env, go)]
    [] op = "adv"  -> IF i >= Len(T) THEN Reject(T, m, Len(T)) ELSE [m EXCEPT !.ctl = go, !.pos = i + 1]
    [] op = "call" -> [m EXCEPT !.ctl = <<Rules[ins[2]], 1, ins[3], go>>]
    [] op = "wh"   -> LET v == Cond(T, m, env, ins[2]) IN
                      IF v > 1 THEN RejectC(T, m, v)
                      ELSE IF v = 1 THEN [m EXCEPT !.ctl = <<ins[3], 1, env, fr>>]
                      ELSE [m EXCEPT !.ctl = go]
    [] op = "sw"   -> LET b == Branch(T, m, env, ins[2], 1) IN
                      IF b[1] > 1 THEN RejectC(T, m, b[1])
                      ELSE [m EXCEPT !.ctl = Enter(IF b[1] = 1 THEN ins[2][b[2]][2] ELSE ins[3], env, go)]
    [] op = "n"    -> IF ins[2] = "EOF" THEN [m EXCEPT !.ctl = go, !.stk = Push(m, [t |-> "EOF", k |-> 0 - i, c |-> EmptyC])]
                      ELSE IF ins[2] = "Unknown" /\ i = Len(T) THEN Reject(T, m, i)
                      ELSE [m EXCEPT !.ctl = go, !.stk = Push(m, Node(ins[2], i))]
    [] op = "put"  -> LET v == m.stk[1]  n == m.stk[2][1] IN
                      [m EXCEPT !.ctl = go, !.stk = <<Put(n, ins[2], v), m.stk[2][2]>>,
                                !.wf = @ /\ ~HasKey(n, ins[2])]
    [] op = "exp"  -> WF(i + ins[2] >= Len(T) \/ T[i + ins[2]].u \in ins[3])
    [] op = "leaf" -> [m EXCEPT !.ctl = go, !.stk = <<Put(m.stk[1], ins[2], Node(ins[3], i)), m.stk[2]>>,
                                !.wf = @ /\ ~HasKey(m.stk[1], ins[2])]
    [] op = "app"  -> [m EXCEPT !.ctl = go, !.stk = <<[l |-> Append(m.stk[2][1].l, m.stk[1])], m.stk[2][2]>>]
    [] op = "calli" -> [m EXCEPT !.ctl = <<Rules[ins[2]], 1, Env2(env, ins[3], ins[4]), go>>]
    [] op = "l0"   -> [m EXCEPT !.ctl = go, !.stk = Push(m, [l |-> <<>>])]
    [] op = "lit"  -> IF i = Len(T) THEN Reject(T, m, i)
                      ELSE LET t == LitType(T, i) IN
                           [m EXCEPT !.ctl = go, !.stk = Push(m, Node(t, i)),
                                     !.wf = @ /\ t # "Unknown"]
    [] op = "swap" -> [m EXCEPT !.ctl = go, !.stk = <<m.stk[2][1], <<m.stk[1], m.stk[2][2]>>>>]
    [] op = "l1"   -> [m EXCEPT !.ctl = go, !.stk = <<[l |-> <<m.stk[1]>>], m.stk[2]>>]
    [] op = "expi" -> WF(IsIdent(T[i]) \/ T[i].d = "tmpl")
    [] op = "expw" -> WF(NameLike(T[i]))
    [] op = "expn" -> WF((T[i].d = "num" /\ T[i].g) \/ T[i].d = "param")
    [] op = "exps" -> WF(T[i].d = "str")
    [] op = "expt" -> WF(m.stk[1].t \in ins[2])
    [] op = "exppat" -> WF(NameLike(T[i]) \/ T[i].u \in {"^", "$"})
    [] op = "expsemi" -> WF(T[i].u = ";")
    [] op = "expend"  -> WF(T[i].u = ";" \/ i + 1 >= Len(T))
    [] op = "exploop" -> WF(T[i].u \in {"LOOP", "WHILE", "FOR", "REPEAT", "BEGIN"})
    [] op = "expglue" -> WF(Nameish(T[i]))
    [] op = "bad"  -> WF(FALSE)
    [] op = "sett" -> [m EXCEPT !.ctl = go, !.stk = <<[m.stk[1] EXCEPT !.t = ins[2]], m.stk[2]>>]
    [] op = "e"    -> [m EXCEPT !.ctl = go, !.stk = Push(m, Node(ins[2], 0))]
    [] op = "drop" -> [m EXCEPT !.ctl = go, !.stk = m.stk[2]]
    [] op = "group" -> LET v == m.stk[1]  n == m.stk[2][1] IN
                       [m EXCEPT !.ctl = go,
                          !.stk = << IF Len(v.l) = 1 THEN Put([n EXCEPT !.t = "GroupedExpr"], "expr", v.l[1])
                                     ELSE Put([n EXCEPT !.t = "StructLiteral"], "exprs", v), m.stk[2][2] >>]
    [] op = "setf" -> [m EXCEPT !.ctl = <<fr[1], fr[2] + 1, [env EXCEPT !.f = T[i].u], fr[4]>>]
    [] op = "setq" -> [m EXCEPT !.ctl = <<fr[1], fr[2] + 1, [env EXCEPT !.q = Prec(T, i)], fr[4]>>]
    [] op = "setch" -> IF Leftmost(m.stk[1]).t = "Identifier"
                       THEN [m EXCEPT !.ctl = <<fr[1], fr[2] + 1, [env EXCEPT !.ch = FALSE], fr[4]>>]
                       ELSE LET v == Cond(T, m, env, Or(T1({"("}), T2({"("}))) IN
                            IF v > 1 THEN RejectC(T, m, v)
                            ELSE [m EXCEPT !.ctl = <<fr[1], fr[2] + 1, [env EXCEPT !.ch = (v = 1)], fr[4]>>]
    [] op = "fail" -> Reject(T, m, IF i + ins[2] > Len(T) THEN Len(T) ELSE i + ins[2])
    [] op \in {"hint", "hint1", "hintn"} -> [m EXCEPT !.ctl = go]
    [] op = "scan" -> LET r == ScanFor(T, i, ins[2], 1, T[i].u = "CREATE") IN
                      IF r = "none" THEN Reject(T, m, i)
                      ELSE IF r = "eof" THEN Reject(T, m, Len(T))
                      ELSE [m EXCEPT !.ctl = <<Rules[r], 1, [D EXCEPT !.sc = env.sc], go>>]
    [] op = "try"  -> [m EXCEPT !.ctl = <<ins[2], 1, env, go>>, !.hs = <<i, m.stk, go, m.wf, ins[3], env, m.hs>>]
    [] op = "endtry" -> [m EXCEPT !.ctl = go, !.hs = m.hs[7]]

(* Run: Step until the machine stops.  (Folded in batches: TLC looks names up along the chain of *)
(* calls, so the evaluation of a step is the faster the less deeply it is nested.)               *)
Ticks == [j \in 1..48 |-> j]
Batch(T, m) == FoldLeft(LAMBDA a, j : IF a.st = "run" THEN Step(T, a) ELSE a, m, Ticks)
RECURSIVE Run(_, _)
Run(T, m) == IF m.st = "run" THEN Run(T, FoldLeft(LAMBDA a, j : IF a.st = "run" THEN Batch(T, a) ELSE a, m, Ticks)) ELSE m
Parse(T) == Run(T, MInit)
=============================================================================
