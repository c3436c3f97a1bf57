-------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* The grammar run backwards: the parser machine is started on an input    *)
(* that does not exist yet.  Whenever an instruction asks about a token    *)
(* that is still open, the answer is chosen and the token is fixed (or the *)
(* answers already given are remembered in ex); then the machine takes its *)
(* ordinary Step.  What has been fixed when the machine stops is a script. *)
(*                                                                         *)
(* Every choice has a default (option 1) that leads to the shortest        *)
(* completion; a behaviour is determined by the options taken.             *)
(***************************************************************************)
EXTENDS Tree

Open(i)   == [l |-> 1, c |-> 4 * i, s |-> "?", u |-> "?", w |-> 1, d |-> "open", g |-> FALSE, x |-> FALSE,
              b |-> 0, e |-> 0, ex |-> {}]
Mk(t, d, s, u) == [l |-> 1, c |-> t.c, s |-> s, u |-> u, w |-> 1, d |-> d, g |-> (d = "num"), x |-> FALSE,
                   b |-> 0, e |-> 0, ex |-> {}]
IsSym(w)  == w \in {"(", ")", "[", "]", ",", ".", ";", ":", "<", ">", "=", "*", "/", "+", "-", "~", "||", "|>", "|",
                    "&", "^", "<<", ">>", "<=", ">=", "<>", "!=", "=>", "{", "}", "?", "$"}
Word(t, w)  == Mk(t, IF w = "{" THEN "tmpl" ELSE IF w = "?" THEN "param" ELSE IF IsSym(w) THEN "sym" ELSE "word", w, w)
IdTok(t)    == Mk(t, "word", "x", "X")
BqTok(t)    == Mk(t, "bq", "`q`", "")
NumTok(t)   == Mk(t, "num", "1", "")
StrTok(t)   == Mk(t, "str", "'s'", "")
ParTok(t)   == Mk(t, "param", "@p", "@P")
TplTok(t)   == Mk(t, "tmpl", "{{v}}", "{{V}}")
IsOpen(t)   == t.d = "open"
(* a plain name is still possible for t *)
CanId(t)    == "IDENT" \notin t.ex

Grow(T, n) == IF T # <<>> /\ T[Len(T)].d = "eof" THEN T
              ELSE IF Len(T) >= n THEN T ELSE T \o [j \in 1..(n - Len(T)) |-> Open(Len(T) + j)]
Fix(T, i, t) == [T EXCEPT ![i] = t]
Cut(T, i)    == SubSeq(T, 1, i - 1) \o <<EofTok @@ [ex |-> {}]>>

(* words that are still possible for t: a word that can serve as a name is none if a name was ruled out *)
Possible(t, W) == {w \in W \ t.ex : CanId(t) \/ w \in KEYWORDS \/ Word(t, w).d # "word"}
FixAny(T, i, W) == LET ws == SetToSeq(Possible(T[i], W)) IN [j \in DOMAIN ws |-> Fix(T, i, Word(T[i], ws[j]))]

Infix == {"(", "[", ".", "*", "/", "||", "+", "-", "<<", ">>", "&", "^", "|", "=", "<", ">", "<=", ">=", "!=", "<>",
          "LIKE", "BETWEEN", "IN", "IS", "AND", "OR", "=>"}
PrecOf(w) == Prec(<<[u |-> w]>>, 1)
RECURSIVE Flat(_)
Flat(ss) == IF Len(ss) = 0 THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(* the ways (inputs) to give condition c the value b *)
RECURSIVE Ways(_, _, _, _, _)
Ways(T, m, env, c, b) ==
  LET i == m.pos
      Same(v) == IF v = b THEN <<T>> ELSE <<>>
      Known == LET v == Cond(T, m, env, c) IN IF (v = 1 /\ b) \/ (v = 0 /\ ~b) THEN <<T>> ELSE <<>>
      IsW(o, W) == IF i + o <= Len(T) /\ IsOpen(T[i + o])
                   THEN IF b THEN FixAny(T, i + o, W)
                        ELSE <<Fix(T, i + o, [T[i + o] EXCEPT !.ex = @ \cup W])>>
                   ELSE Known
      Class(o, t, n) == IF i + o <= Len(T) /\ IsOpen(T[i + o])
                     THEN IF b THEN (IF n \in T[i + o].ex THEN <<>> ELSE <<Fix(T, i + o, t)>>)
                          ELSE <<Fix(T, i + o, [T[i + o] EXCEPT !.ex = @ \cup {n}])>>
                     ELSE Known
      Both(x, vx, y, vy) == LET xs == Ways(T, m, env, x, vx)
                            IN  Flat([j \in DOMAIN xs |-> Ways(xs[j], m, env, y, vy)])
  IN
  CASE c[1] = "is"    -> IsW(c[2], c[3])
    [] c[1] = "until" -> IsW(1, env.u)
    [] c[1] = "not"   -> Ways(T, m, env, c[2], ~b)
    [] c[1] = "only"  -> LET w == Ways(T, m, env, c[2], b) IN
                         IF b /\ Cond(T, m, env, c[3]) # 1 /\ w # <<T>> THEN <<>> ELSE w
    [] c[1] = "and"   -> IF b THEN Both(c[2], TRUE, c[3], TRUE)
                         ELSE Ways(T, m, env, c[2], FALSE) \o Both(c[2], TRUE, c[3], FALSE)
    [] c[1] = "or"    -> IF b THEN Ways(T, m, env, c[2], TRUE) \o Both(c[2], FALSE, c[3], TRUE)
                         ELSE Both(c[2], FALSE, c[3], FALSE)
    [] c[1] = "ident" -> Class(c[2], IdTok(T[i + c[2]]), "IDENT")
    [] c[1] = "str"   -> Class(c[2], StrTok(T[i + c[2]]), "STR")
    [] c[1] = "num"   -> Class(c[2], NumTok(T[i + c[2]]), "NUM")
    [] c[1] = "eof"   -> IF i + c[2] <= Len(T) /\ IsOpen(T[i + c[2]])
                         THEN IF b THEN <<Cut(T, i + c[2])>> ELSE <<T>>
                         ELSE Known
    [] c[1] = "prec"  -> IF i + 1 <= Len(T) /\ IsOpen(T[i + 1])
                         THEN LET ops == {w \in Infix : PrecOf(w) < env.p} IN
                              IF b THEN FixAny(T, i + 1, ops) \o
                                        (IF 109 < env.p /\ IsOpen(T[i + 2]) /\ "NOT" \notin T[i + 1].ex
                                         THEN FixAny(Fix(T, i + 1, Word(T[i + 1], "NOT")), i + 2, {"IN", "LIKE", "BETWEEN"})
                                         ELSE <<>>)
                              ELSE <<Fix(T, i + 1, [T[i + 1] EXCEPT !.ex = @ \cup ops])>>
                         ELSE Known
    [] c[1] = "adj"   -> IF i + 1 <= Len(T) /\ IsOpen(T[i + 1])
                         THEN IF ~b THEN <<T>>
                              ELSE IF T[i].d = "word" /\ "-" \notin T[i + 1].ex
                                   THEN <<Fix(T, i + 1, [Word(T[i + 1], "-") EXCEPT !.c = T[i].c + 1])>>
                              ELSE IF T[i].u = "-" /\ CanId(T[i + 1])
                                   THEN <<Fix(T, i + 1, [IdTok(T[i + 1]) EXCEPT !.c = T[i].c + 1])>>
                              ELSE <<>>
                         ELSE Known
    [] c[1] = "pstmt" -> IF IsOpen(T[i + 1])
                         THEN IF b THEN << Fix(T, i + 1, Word(T[i + 1], "SELECT")), Fix(T, i + 1, Word(T[i + 1], "WITH")) >>
                                     \o (IF IsOpen(T[i + 2])
                                         THEN << Fix(Fix(T, i + 1, Word(T[i + 1], "(")), i + 2, Word(T[i + 2], "SELECT")) >>
                                         ELSE <<>>)
                              ELSE <<T>>
                         ELSE Known
    [] OTHER          -> Known

(* CREATE / ALTER: modifiers that may precede the kind of object *)
Modifiers == << <<>>, <<"OR", "REPLACE">>, <<"TEMP">>, <<"TEMPORARY">>, <<"EXTERNAL">>, <<"SNAPSHOT">>,
                <<"MATERIALIZED">>, <<"OR", "REPLACE", "MATERIALIZED">>, <<"OR", "REPLACE", "TEMP">>,
                <<"OR", "REPLACE", "EXTERNAL">>, <<"AGGREGATE">>, <<"TEMP", "AGGREGATE">>, <<"TABLE">>,
                <<"OR", "REPLACE", "TABLE">> >>
FixSeq(T, i, ws) == [j \in DOMAIN T |-> IF j >= i /\ j < i + Len(ws) THEN Word(T[j], ws[j - i + 1]) ELSE T[j]]
ScanWays(T, i, cs) ==
  Flat([j \in DOMAIN cs |-> LET ws == SetToSeq(cs[j][1]) IN
        Flat([k \in DOMAIN ws |-> [n \in DOMAIN Modifiers |-> FixSeq(T, i + 1, Modifiers[n] \o <<ws[k]>>)]])])

(* the inputs among which instruction ins chooses; the first is the default *)
LitOpts(T, i) == (IF CanId(T[i]) THEN <<Fix(T, i, IdTok(T[i]))>> ELSE <<>>)
                 \o <<Fix(T, i, NumTok(T[i])), Fix(T, i, StrTok(T[i])), Fix(T, i, Word(T[i], "NULL")),
                      Fix(T, i, Word(T[i], "TRUE")), Fix(T, i, ParTok(T[i])), Fix(T, i, TplTok(T[i]))>>
                 \o (IF CanId(T[i]) THEN <<Fix(T, i, BqTok(T[i]))>> ELSE <<>>)
NameOpts(T, i) == IF CanId(T[i]) THEN <<Fix(T, i, IdTok(T[i])), Fix(T, i, BqTok(T[i]))>> ELSE <<Fix(T, i, Word(T[i], "NULL"))>>
(* no branch of a switch is taken: remember that *)
RECURSIVE NoBranch(_, _, _, _, _)
NoBranch(T, m, env, bs, j) == IF j > Len(bs) THEN <<T>>
                              ELSE LET v == Ways(T, m, env, bs[j][1], FALSE) IN
                                   IF Len(v) = 0 THEN <<>> ELSE NoBranch(v[1], m, env, bs, j + 1)
SemiC == And(T1({";"}), EnvC("sc"))
Options(T, m, ins, nxt, env) ==
  LET i  == m.pos
      op == ins[1]
      C(c) == Ways(T, m, env, c, FALSE) \o Ways(T, m, env, c, TRUE)
      HintAt(o) == IF IsOpen(T[i + o])
                   THEN [j \in DOMAIN ins[2] |-> Fix(T, i + o, Word(T[i + o], ins[2][j]))]
                        \o Flat([j \in DOMAIN nxt[2] |-> Ways(T, m, env, nxt[2][j][1], TRUE)])
                   ELSE <<T>>
  IN
  CASE op = "if"    -> IF ins[2] = SemiC /\ env.sc THEN Ways(T, m, env, ins[2], TRUE) \o Ways(T, m, env, ins[2], FALSE)
                       ELSE IF ins[2][1] = "not" /\ ~(Len(ins[3]) > 0 /\ ins[3][1][1] \in {"fail", "bad"})
                       THEN Ways(T, m, env, ins[2], TRUE) \o Ways(T, m, env, ins[2], FALSE)
                       ELSE C(ins[2])
    [] op = "wh"    -> IF ins[2] = Not(Eof(0)) /\ i = 1 THEN <<T>> ELSE C(ins[2])
    [] op = "sw"    -> LET nofall == Len(ins[3]) > 0 /\ ins[3][1][1] = "fail"
                           ws   == Flat([j \in DOMAIN ins[2] |-> Ways(T, m, env, ins[2][j][1], TRUE)])
                       IN  (IF nofall THEN <<>> ELSE NoBranch(T, m, env, ins[2], 1)) \o ws
    [] op = "exp"   -> IF i + ins[2] <= Len(T) /\ IsOpen(T[i + ins[2]]) THEN FixAny(T, i + ins[2], ins[3]) ELSE <<T>>
    [] op \in {"expi", "expw"} -> IF IsOpen(T[i]) THEN NameOpts(T, i) ELSE <<T>>
    [] op = "exppat" -> IF IsOpen(T[i]) THEN NameOpts(T, i) \o FixAny(T, i, {"^", "$"}) ELSE <<T>>
    [] op = "expn"  -> IF IsOpen(T[i]) THEN <<Fix(T, i, NumTok(T[i])), Fix(T, i, ParTok(T[i]))>> ELSE <<T>>
    [] op = "exps"  -> IF IsOpen(T[i]) THEN <<Fix(T, i, StrTok(T[i]))>> ELSE <<T>>
    [] op = "exploop" -> IF IsOpen(T[i]) THEN FixAny(T, i, {"LOOP", "WHILE", "FOR", "REPEAT", "BEGIN"}) ELSE <<T>>
    [] op = "lit"   -> IF IsOpen(T[i]) THEN LitOpts(T, i) ELSE <<T>>
    [] op \in {"n", "leaf"} -> IF IsOpen(T[i]) /\ ins[2] # "Unknown" /\ ~(op = "n" /\ ins[2] = "EOF") THEN NameOpts(T, i) ELSE <<T>>
    [] op = "setch" -> IF IsOpen(T[i + 1]) /\ IsOpen(T[i + 2]) /\ Leftmost(m.stk[1]).t # "Identifier"
                       THEN <<T, Fix(T, i + 2, Word(T[i + 2], "("))>> ELSE <<T>>
    [] op = "hint"  -> HintAt(0)
    [] op = "hint1" -> HintAt(1)
    [] op = "hintn" -> IF IsOpen(T[i + 1]) THEN FixAny(T, i + 1, ins[2]) ELSE <<T>>
    [] op = "expend" -> IF T[i].u # ";" /\ IsOpen(T[i + 1]) THEN <<Cut(T, i + 1)>> ELSE <<T>>
    [] op = "scan"  -> ScanWays(T, i, ins[2])
    [] OTHER        -> <<T>>

------------------------------------------------------------------------------
(* Choosing.  r: two small congruential generators; p: chance (percent) of  *)
(* leaving the default; beyond maxlen tokens only defaults are taken.       *)
Rnd(r)  == << (r[1] * 75 + 74) % 65537, (r[2] * 171 + 3) % 30269 >>
Val(r)  == r[1] + r[2] + (r[1] % 251) * (r[2] % 241)
GInit(seed, start) == LET s == seed % 200003 IN
  [T |-> Grow(start, 12), m |-> MInit, r |-> Rnd(Rnd(Rnd(<<1 + ((s * 331) % 65000), 1 + ((s * 7919) % 30000)>>))), n |-> 0]

GStep(g, p, maxlen) ==
  LET m  == g.m
      T  == Grow(g.T, m.pos + 8)
      fr == m.ctl
  IN
  IF Len(fr) = 0 \/ fr[2] > Len(fr[1]) THEN [g EXCEPT !.T = T, !.m = Step(T, m)]
  ELSE
  LET ins == fr[1][fr[2]]
      nxt == IF fr[2] < Len(fr[1]) THEN fr[1][fr[2] + 1] ELSE <<"">>
      os  == Options(T, m, ins, nxt, fr[3])
  IN
  IF Len(os) = 0 THEN [g EXCEPT !.m.st = "err"]
  ELSE IF Len(os) = 1 THEN [g EXCEPT !.T = os[1], !.m = Step(os[1], m)]
  ELSE
  LET r1 == Rnd(g.r)  r2 == Rnd(r1)
      dev == m.pos <= maxlen /\ ((ins[1] = "hint" /\ m.pos = 1) \/ Val(r1) % 100 < p)
      k   == IF dev THEN 1 + (Val(r2) % Len(os)) ELSE 1
  IN  [T |-> os[k], m |-> Step(os[k], m), r |-> r2, n |-> g.n + 1]

RECURSIVE GRun(_, _, _)
GRun(g, p, maxlen) == IF g.m.st = "run" /\ g.m.wf /\ g.m.pos < 200 THEN GRun(GStep(g, p, maxlen), p, maxlen) ELSE g

(* tokens of the script, glued ones marked *)
Texts(g) == LET n == Len(g.T) - 1 IN
            [j \in 1..n |-> IF j > 1 /\ g.T[j].c = g.T[j - 1].c + 1 THEN "\t" \o g.T[j].s ELSE g.T[j].s]
=============================================================================
