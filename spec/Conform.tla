------------------------------ MODULE Conform -------------------------------
(***************************************************************************)
(* Recorded calls of the library, checked against the specification.       *)
(*                                                                         *)
(* The log holds one entry per line, an entry being a relation and the     *)
(* calls it relates:                                                       *)
(*   one      one text                                                     *)
(*   call     one text, too large to recompute: only that it is answered   *)
(*   case     the same text with letters in another case                   *)
(*   layout   the same tokens, laid out differently                        *)
(*   comment  the same tokens, with other comments                         *)
(*   concat   two scripts, and the one after the other                     *)
(*   block    a script, and BEGIN script END;                              *)
(*   moved    a text, and the same behind many line feeds and spaces (too  *)
(*            large to recompute: the second one has no source)            *)
(* A recorded call holds the source (src), the result of tokenize (ts, te, *)
(* tk) and the result of parse (ps, pe, tree); sh is the set of object     *)
(* shapes met in the two results.                                          *)
(*                                                                         *)
(* The specification recomputes tokens, comments and tree from the source. *)
(* Every disagreement is printed as <<"V", line, category, path>>.         *)
(***************************************************************************)
EXTENDS Tree, Json, IOUtils

Log  == ndJsonDeserialize(IOEnv.TRACE)
Decl == JsonDeserialize(IOEnv.DECL)      \* the published declarations: [node type |-> [keys |-> [key |-> kind], token |-> _]]
VARIABLES l, cnt, types
vars == <<l, cnt, types>>

COMKEYS == {"leading_comments", "trailing_comments"}
Found(cat, path) == << <<cat, path>> >>
None == <<>>

------------------------------------------------------------------------------
(* tokens *)

(* the positions and texts reported are those of the source: every token is the text found at its  *)
(* position, tokens follow each other, and nothing but white space lies between them               *)
LineStart(src) == <<1>> \o SelectSeq([k \in 1..Len(src) |-> IF src[k] = "\n" THEN k + 1 ELSE 0], LAMBDA k : k > 0)
(* index after text s when it lies in src at i, else 0 *)
RECURSIVE MatchAt(_, _, _, _)
MatchAt(src, j, s, acc) == IF Len(acc) >= Len(s) THEN (IF acc = s THEN j ELSE 0)
                           ELSE IF j > Len(src) THEN 0 ELSE MatchAt(src, j + 1, s, acc \o src[j])
(* i: first source index not yet accounted for; 0 after a mismatch *)
PartStep(src, ls, i, t) ==
  LET k == Skip(src, i, Spaces) IN
  IF i # 0 /\ t[1] \in 1..Len(ls) /\ Len(t[3]) > 0 /\ ls[t[1]] + t[2] - 1 = k THEN MatchAt(src, k, t[3], "") ELSE 0
Partition(src, tk) ==
  /\ Len(tk) > 0 /\ tk[Len(tk)] = Key(EofTok)
  /\ LET ls == LineStart(src)
         i  == FoldLeft(LAMBDA j, t : PartStep(src, ls, j, t), 1, SubSeq(tk, 1, Len(tk) - 1))
     IN  i # 0 /\ Skip(src, i, Spaces) > Len(src)

Toks(x) == [j \in DOMAIN x.toks |-> Key(x.toks[j])]
LexOk(r, x) == IF x.st = "err" THEN r.ts = "err" ELSE r.ts = "ok" /\ r.tk = Toks(x)

LexVerdict(r, x) ==
  (IF r.ts = "crash" THEN Found("crash", <<"tokenize">>) ELSE IF r.ts = "hang" THEN Found("hang", <<"tokenize">>) ELSE None)
  \o (IF r.ts = "ok" /\ ~Partition(r.src, r.tk) THEN Found("partition", <<>>) ELSE None)
  \o (IF r.ts \in {"ok", "err"} /\ ~LexOk(r, x) THEN Found("lex", <<IF x.st = "err" THEN "accepts" ELSE IF r.ts = "err" THEN "rejects" ELSE "tokens">>) ELSE None)
  \o (IF r.ts = "err" /\ x.st = "err" /\ r.te # <<x.el, x.ec>> THEN Found("lexpos", <<>>) ELSE None)

------------------------------------------------------------------------------
(* trees *)

IsList(v) == "l" \in DOMAIN v
Kids(n, x) == IF IsList(n.c[x]) THEN n.c[x].l ELSE <<n.c[x]>>

RECURSIVE Strip(_)
Strip(n) == [t |-> n.t, k |-> n.k,
             c |-> [x \in DOMAIN n.c \ COMKEYS |-> IF IsList(n.c[x])
                                                  THEN [l |-> [j \in DOMAIN n.c[x].l |-> Strip(n.c[x].l[j])]]
                                                  ELSE Strip(n.c[x])]]
StripF(f) == [j \in DOMAIN f |-> Strip(f[j])]

(* deep trees are recorded as a list of nodes that name their children by number *)
RECURSIVE Unfold(_, _)
Unfold(ns, i) == LET n == ns[i] IN
  [t |-> n.t, k |-> n.k, c |-> [x \in DOMAIN n.c |-> IF IsList(n.c[x])
                                                    THEN [l |-> [j \in DOMAIN n.c[x].l |-> Unfold(ns, n.c[x].l[j])]]
                                                    ELSE Unfold(ns, n.c[x].i)]]
Norm(r) == IF "nodes" \in DOMAIN r THEN [r EXCEPT !.tree = [j \in DOMAIN r.roots |-> Unfold(r.nodes, r.roots[j])]] ELSE r

(* all nodes below and including n *)
RECURSIVE NodesF(_)
Nodes(n) == <<n>> \o FoldSet(LAMBDA x, acc : acc \o NodesF(Kids(n, x)), <<>>, DOMAIN n.c)
NodesF(f) == FoldLeft(LAMBDA acc, n : acc \o Nodes(n), <<>>, f)

(* every token, comments included, exactly once *)
Lossless(tk, ns) ==
  LET ks == SelectSeq([j \in DOMAIN ns |-> ns[j].k], LAMBDA k : k # <<>>) IN
  Len(ks) = Len(tk) - 1 /\ Range(ks) = {tk[j] : j \in 1..(Len(tk) - 1)}

(* the tokens below any node are a contiguous stretch; span = <<first, last, count>> *)
NoSpan == <<EOFPOS, 0, 0>>
Join(a, b) == <<IF a[1] < b[1] THEN a[1] ELSE b[1], IF a[2] > b[2] THEN a[2] ELSE b[2], a[3] + b[3]>>
BadSpan == <<0, 0, 0>>
RECURSIVE Span(_, _)
Span(ix, n) ==
  LET own == IF n.k # <<>> /\ n.k \in DOMAIN ix THEN <<ix[n.k], ix[n.k], 1>> ELSE NoSpan
      RECURSIVE F(_, _)
      F(f, acc) == IF Len(f) = 0 \/ acc = BadSpan THEN acc
                   ELSE LET s == Span(ix, f[1]) IN IF s = BadSpan THEN s ELSE F(Tail(f), Join(acc, s))
      all == FoldSet(LAMBDA x, acc : F(Kids(n, x), acc), own, DOMAIN n.c \ COMKEYS)
  IN  IF all = BadSpan \/ (all[3] > 0 /\ all[2] - all[1] + 1 # all[3]) THEN BadSpan ELSE all
RECURSIVE InOrder(_, _, _)
InOrder(ix, f, last) ==
  IF Len(f) = 0 THEN TRUE
  ELSE LET s == Span(ix, f[1]) IN
       s # BadSpan /\ (s = NoSpan \/ s[1] = last + 1) /\ InOrder(ix, Tail(f), IF s = NoSpan THEN last ELSE s[2])
Index(T) == FoldLeftDomain(LAMBDA f, j : IF j = Len(T) THEN f ELSE (Key(T[j]) :> j) @@ f, EmptyC, T)

(* <<token, "lead" or "trail", texts>> for every token that has comments *)
Attached(ns) ==
  LET one(n, x, w) == IF x \in DOMAIN n.c THEN {<<n.k, w, [j \in DOMAIN Kids(n, x) |-> Kids(n, x)[j].k]>>} ELSE {}
  IN  UNION {one(ns[j], "leading_comments", "lead") \cup one(ns[j], "trailing_comments", "trail") : j \in DOMAIN ns}
ShouldAttach(T, at) ==
  LET key(i) == IF i = Len(T) THEN <<>> ELSE Key(T[i])
      ks(cs) == [j \in DOMAIN cs |-> Key(cs[j])]
  IN  UNION {(IF Len(at[i].lead) > 0 THEN {<<key(i), "lead", ks(at[i].lead)>>} ELSE {})
             \cup (IF Len(at[i].trail) > 0 THEN {<<key(i), "trail", ks(at[i].trail)>>} ELSE {}) : i \in DOMAIN at}

(* node types on the way to the first disagreement between a (specified) and b (recorded) *)
RECURSIVE Diff(_, _)
RECURSIVE DiffF(_, _, _)
DiffF(f, g, t) ==
  IF f = g THEN None
  ELSE IF Len(f) = 0 \/ Len(g) = 0 THEN <<t, IF Len(f) > 0 THEN f[1].t ELSE "", IF Len(g) > 0 THEN g[1].t ELSE "">>
  ELSE LET d == Diff(f[1], g[1]) IN IF d # None THEN d ELSE DiffF(Tail(f), Tail(g), t)
Diff(a, b) ==
  IF a = b THEN None
  ELSE IF a.t # b.t \/ a.k # b.k \/ DOMAIN a.c # DOMAIN b.c \/ \E x \in DOMAIN a.c : IsList(a.c[x]) # IsList(b.c[x])
       THEN <<a.t, b.t>>
  ELSE LET x == CHOOSE x \in DOMAIN a.c : a.c[x] # b.c[x] IN <<a.t>> \o DiffF(Kids(a, x), Kids(b, x), a.t)

(* node types on the way to the token with key k *)
RECURSIVE PathTo(_, _)
PathTo(f, k) ==
  IF Len(f) = 0 THEN None
  ELSE IF f[1].k = k THEN <<f[1].t>>
  ELSE LET hit == {x \in DOMAIN f[1].c : PathTo(Kids(f[1], x), k) # None} IN
       IF hit = {} THEN PathTo(Tail(f), k)
       ELSE <<f[1].t>> \o PathTo(Kids(f[1], CHOOSE x \in hit : TRUE), k)

(* node types, child keys and child kinds are the published ones; so are the types of the children where they are named *)
OfNamedType(n, x) == x \in DOMAIN Decl[n.t].of =>
  \A j \in DOMAIN Kids(n, x) : Kids(n, x)[j].t \in Range(Decl[n.t].of[x])
Declared(n) ==
  /\ n.t \in DOMAIN Decl
  /\ \A x \in DOMAIN n.c : /\ x \in DOMAIN Decl[n.t].keys
                           /\ Decl[n.t].keys[x] \in {IF IsList(n.c[x]) THEN "NodeVec" ELSE "Node", "any"}
  /\ \A x \in DOMAIN n.c : OfNamedType(n, x)
  /\ \A j \in DOMAIN Decl[n.t].req : Decl[n.t].req[j] \in DOMAIN n.c
  /\ n.k = <<>> => Decl[n.t].token # "Token"
  /\ n.k # <<>> => Decl[n.t].token # "null"
Undeclared(n) ==
  IF n.t \notin DOMAIN Decl THEN {<<n.t>>}
  ELSE {<<n.t, x>> : x \in {y \in DOMAIN n.c : \/ y \notin DOMAIN Decl[n.t].keys
                                              \/ Decl[n.t].keys[y] \notin {IF IsList(n.c[y]) THEN "NodeVec" ELSE "Node", "any"}}}
       \cup {<<n.t, x, "type">> : x \in {y \in DOMAIN n.c : ~OfNamedType(n, y)}}
       \cup {<<n.t, "missing", x>> : x \in {y \in Range(Decl[n.t].req) : y \notin DOMAIN n.c}}
       \cup (IF (n.k = <<>> /\ Decl[n.t].token = "Token") \/ (n.k # <<>> /\ Decl[n.t].token = "null") THEN {<<n.t, "token">>} ELSE {})

(* the tokens returned as names; a reserved word that is not a name ends the construct, in whatever text it stands *)
Named(ns) == {ns[j].k : j \in {i \in DOMAIN ns : ns[i].t = "Identifier"}}

ParseVerdict(r, x, T, m) ==
  LET at == Att(x.toks)
      ns == NodesF(r.tree)
      spec == Forest(T, at, m)
      epos == <<T[m.err].l, T[m.err].c>>
      full == Lossless(r.tk, ns)
  IN
  CASE r.ps = "crash" -> Found("crash", <<"parse">>)
    [] r.ps = "hang"  -> Found("hang", <<"parse">>)
    [] r.ps = "err"   ->
         (IF m.st = "done" THEN Found("name", <<>>) ELSE None)
         \o (IF r.pe \notin {<<T[j].l, T[j].c>> : j \in DOMAIN T} THEN Found("errtoken", <<>>) ELSE None)
         \o (IF m.wf /\ m.st = "done"
             THEN Found("rejects", LET p == {j \in 1..(Len(T) - 1) : <<T[j].l, T[j].c>> = r.pe} IN
                                   IF p = {} THEN <<spec[IF Len(spec) > 1 THEN Len(spec) - 1 ELSE 1].t, "at end">>
                                   ELSE PathTo(spec, Key(T[CHOOSE j \in p : TRUE]))) ELSE None)
         \o (IF m.wf /\ m.st = "err" /\ r.pe # epos THEN Found("errpos", <<IF m.err = Len(T) THEN "end" ELSE T[m.err].u>>) ELSE None)
    [] OTHER ->
         (IF m.wf /\ m.st = "err" THEN Found("accepts", <<IF m.err = Len(T) THEN "end" ELSE T[m.err].u>>) ELSE None)
         \o (IF ~full /\ ~(m.st = "done" /\ ~m.wf /\ ~Lossless(r.tk, NodesF(spec))) THEN Found("lost", <<>>) ELSE None)
         \o (IF m.wf /\ full /\ ~InOrder(Index(T), r.tree, 0) THEN Found("span", <<>>) ELSE None)
         \o (IF full /\ Attached(ns) # ShouldAttach(T, at) THEN Found("comments", <<>>) ELSE None)
         \o (IF m.wf /\ m.st = "done" /\ StripF(spec) # StripF(r.tree)
             THEN Found("tree", DiffF(StripF(spec), StripF(r.tree), "Script")) ELSE None)
         \o (IF m.st = "err" \/ Named(ns) # Named(NodesF(spec)) THEN Found("name", <<>>) ELSE None)
         \o (IF m.wf /\ \E j \in DOMAIN ns : ~Declared(ns[j])
             THEN SetToSeq({<<"declared", p>> : p \in UNION {Undeclared(ns[j]) : j \in DOMAIN ns}}) ELSE None)

(* the shapes of the JavaScript objects returned *)
Shapes == { "array", "token {column:int,line:int,literal:string}",
            "node {children:object,node_type:string,token:null}", "node {children:object,node_type:string,token:object}",
            "child {Node:object}", "child {NodeVec:array}", "error {column:int,line:int,message:string}" }
ShapeVerdict(r) == LET bad == Range(r.sh) \ Shapes IN IF bad = {} THEN None ELSE Found("shape", SetToSeq(bad))
(* the tokens in the tree are tokens that tokenize returns; lexical errors are reported alike by both *)
AgreeVerdict(r) ==
  IF r.ts = "err" /\ (r.ps # "err" \/ r.pe # r.te \/ r.pm # r.tm) THEN Found("agree", <<"error">>)
  ELSE IF r.ts = "ok" /\ r.ps = "ok" /\ LET ns == NodesF(r.tree)  tk == Range(r.tk) IN
                                        \E j \in DOMAIN ns : ns[j].k # <<>> /\ ns[j].k \notin tk
       THEN Found("agree", <<"token">>)
  ELSE None

OneVerdict(r) ==
  LET x == Lex(r.src) IN
  LexVerdict(r, x) \o ShapeVerdict(r) \o AgreeVerdict(r)
  \o (IF r.ts = "ok" /\ x.st = "done" /\ LexOk(r, x) THEN LET T == Code(x.toks) IN ParseVerdict(r, x, T, Parse(T))
      ELSE IF r.ps \in {"crash", "hang"} THEN Found(r.ps, <<"parse">>) ELSE None)

------------------------------------------------------------------------------
(* relations between calls *)

(* token numbers instead of positions and texts, no comments *)
RECURSIVE Proj(_, _, _)
Proj(ix, off, n) == [t |-> n.t, k |-> IF n.k = <<>> \/ n.k \notin DOMAIN ix THEN 0 ELSE ix[n.k] + off,
             c |-> [x \in DOMAIN n.c \ COMKEYS |-> IF IsList(n.c[x])
                                                  THEN [l |-> [j \in DOMAIN n.c[x].l |-> Proj(ix, off, n.c[x].l[j])]]
                                                  ELSE Proj(ix, off, n.c[x])]]
ProjF(T, off, f) == LET ix == Index(T) IN [j \in DOMAIN f |-> Proj(ix, off, f[j])]
ErrAt(T, r) == LET p == {j \in DOMAIN T : <<T[j].l, T[j].c>> = r.pe} IN IF p = {} THEN 0 ELSE CHOOSE j \in p : TRUE

Touch(T, i) == T[i].x \/ (i < Len(T) /\ T[i].l = T[i + 1].l /\ T[i].c + T[i].w = T[i + 1].c)
(* touching tokens can be parts of one name *)
TouchMatters(T, i) == T[i].d # "bq" /\ i < Len(T) /\ T[i + 1].u \notin {",", ".", "(", ")", ";", "|>"}
Same(T, U, rel, touch) ==
  /\ Len(T) = Len(U)
  /\ \A i \in DOMAIN T : /\ T[i].d = U[i].d
                         /\ IF rel = "case" /\ T[i].d \in {"word", "num", "param"}
                            THEN T[i].u = U[i].u /\ (T[i].d = "num" => T[i].w = U[i].w) ELSE T[i].s = U[i].s
                         /\ T[i].g = U[i].g
                         /\ touch /\ TouchMatters(T, i) => Touch(T, i) = Touch(U, i)

PairVerdict(rel, a, b) ==
  LET x == Lex(a.src)  y == Lex(b.src)  T == Code(x.toks)  U == Code(y.toks) IN
  IF x.st # "done" \/ y.st # "done" \/ ~Same(T, U, rel, FALSE)
     \/ ~(Same(T, U, rel, TRUE) \/ LET m == Parse(T) IN m.wf /\ m.st = "done" /\ m = Parse(U)) THEN Found("skip", <<>>)
  ELSE IF {a.ps, b.ps} \cap {"crash", "hang"} # {} THEN (IF a.ps # b.ps THEN Found(rel, <<"crash">>) ELSE Found("skip", <<>>))
  ELSE IF LexOk(a, x) # LexOk(b, y) THEN Found(rel, <<"tokens">>)
  ELSE IF ~LexOk(a, x) THEN Found("skip", <<>>)
  ELSE IF a.ps # b.ps THEN Found(rel, <<"accepts">>)
  ELSE IF a.ps = "err" THEN (IF ErrAt(T, a) # ErrAt(U, b) THEN Found(rel, <<"error">>) ELSE None)
  ELSE LET p == ProjF(T, 0, a.tree)  q == ProjF(U, 0, b.tree) IN IF p # q THEN Found(rel, DiffF(p, q, "Script")) ELSE None

WithoutEof(f) == SubSeq(f, 1, Len(f) - 1)
ConcatVerdict(a, b, c) ==
  LET x == Lex(a.src)  y == Lex(b.src)  z == Lex(c.src)
      T == Code(x.toks)  U == Code(y.toks)  V == Code(z.toks)  n == Len(T) - 1 IN
  IF {x.st, y.st, z.st} # {"done"} \/ n = 0 \/ ~Same(SubSeq(T, 1, n) \o U, V, "layout", TRUE) THEN Found("skip", <<>>)
  ELSE IF T[n].u # ";" \/ a.ps # "ok" \/ ~LexOk(a, x) \/ ~LexOk(b, y) \/ b.ps \notin {"ok", "err"} THEN Found("skip", <<>>)
  ELSE LET m == Parse(T) IN
  IF ~m.wf \/ m.st # "done" THEN Found("skip", <<>>)
  ELSE IF ~LexOk(c, z) THEN Found("concat", <<"tokens">>)
  ELSE IF b.ps # c.ps THEN Found("concat", <<"accepts">>)
  ELSE IF b.ps = "err" THEN (IF ErrAt(U, b) + n # ErrAt(V, c) THEN Found("concat", <<"error">>) ELSE None)
  ELSE LET p == WithoutEof(ProjF(T, 0, a.tree)) \o ProjF(U, n, b.tree)  q == ProjF(V, 0, c.tree)
       IN  IF p # q THEN Found("concat", DiffF(p, q, "Script")) ELSE None

BlockVerdict(a, c) ==
  LET x == Lex(a.src)  z == Lex(c.src)  T == Code(x.toks)  V == Code(z.toks)  n == Len(T) - 1 IN
  IF x.st # "done" \/ z.st # "done" \/ n = 0 \/ Len(V) # n + 4 \/ V[1].u # "BEGIN" \/ V[n + 2].u # "END"
     \/ ~Same(SubSeq(T, 1, n), SubSeq(V, 2, n + 1), "layout", TRUE) THEN Found("skip", <<>>)
  ELSE IF T[n].u # ";" \/ T[1].u \in {"TRANSACTION", ";", "END", "EXCEPTION"} \/ a.ps # "ok" \/ ~LexOk(a, x)
     THEN Found("skip", <<>>)
  ELSE LET m == Parse(T) IN
  IF ~m.wf \/ m.st # "done" THEN Found("skip", <<>>)
  ELSE IF ~LexOk(c, z) THEN Found("block", <<"tokens">>)
  ELSE IF c.ps # "ok" THEN Found("block", <<"accepts">>)
  ELSE LET p == WithoutEof(ProjF(T, 1, a.tree))  q == ProjF(V, 0, c.tree)
       IN  IF Len(q) # 2 \/ q[1].t # "BeginStatement" \/ "stmts" \notin DOMAIN q[1].c \/ q[1].c["stmts"] # [l |-> p]
           THEN Found("block", <<"BeginStatement">>) ELSE None

(* behind nl line feeds and sp spaces, everything moves by nl lines, and the first line by sp columns *)
MovedVerdict(a, b, nl, sp) ==
  LET far(k) == k[1] = Key(EofTok)[1]
      at(k)  == IF far(k) \/ k[1] < 0 THEN <<k[1], k[2]>> ELSE <<k[1] + nl, IF k[1] = 1 THEN k[2] + sp ELSE k[2]>>
      tok(k) == at(k) \o <<k[3]>>
      keys(r) == LET ns == NodesF(r.tree) IN {ns[j].k : j \in {i \in DOMAIN ns : ns[i].k # <<>>}}
  IN  IF {a.ts, b.ts, a.ps, b.ps} \cap {"crash", "hang"} # {} THEN Found("skip", <<>>)
      ELSE (IF a.ts # b.ts \/ (a.ts = "ok" /\ b.tk # [j \in DOMAIN a.tk |-> tok(a.tk[j])]) THEN Found("partition", <<"moved">>) ELSE None)
        \o (IF a.ts = "err" /\ b.ts = "err" /\ b.te # at(a.te) THEN Found("lexpos", <<"moved">>) ELSE None)
        \o (IF a.ps = "ok" /\ b.ps = "ok" /\ keys(b) # {tok(k) : k \in keys(a)} THEN Found("lost", <<"moved">>) ELSE None)
        \o (IF a.ps = "err" /\ b.ps = "err" /\ b.pe # at(a.pe) THEN Found("errpos", <<"moved">>) ELSE None)
        \o (IF a.ps # b.ps THEN Found("rejects", <<"moved">>) ELSE None)
        \o AgreeVerdict(b) \o ShapeVerdict(b)

Verdict(e) ==
  CASE e.rel = "one"    -> OneVerdict(e.rs[1])
    [] e.rel = "call"   -> (IF e.rs[1].ts \in {"crash", "hang"} THEN Found(e.rs[1].ts, <<"tokenize">>) ELSE None)
                           \o (IF e.rs[1].ps \in {"crash", "hang"} THEN Found(e.rs[1].ps, <<"parse">>) ELSE None)
    [] e.rel \in {"case", "layout", "comment"} -> PairVerdict(e.rel, e.rs[1], e.rs[2])
    [] e.rel = "concat" -> ConcatVerdict(e.rs[1], e.rs[2], e.rs[3])
    [] e.rel = "block"  -> BlockVerdict(e.rs[1], e.rs[2])
    [] e.rel = "moved"  -> MovedVerdict(e.rs[1], e.rs[2], e.by[1], e.by[2])

------------------------------------------------------------------------------
RECURSIVE Report(_, _)
Report(n, v) == IF Len(v) = 0 THEN TRUE
                ELSE /\ IF v[1][1] = "skip" THEN TRUE ELSE PrintT("V " \o ToJson(<<n, v[1][1], v[1][2]>>))
                     /\ Report(n, Tail(v))

(* the log is read by W readers, reader w taking the entries w, w + W, w + 2W, ... *)
W == atoi(IOEnv.READERS)
Init == l \in 1..W /\ cnt = [ok |-> 0, err |-> 0, skip |-> 0, bad |-> 0] /\ types = {}
Next == /\ l <= Len(Log)
        /\ l' = l + W
        /\ LET g == Log[l]  e == [rel |-> g.rel, by |-> g.by, rs |-> [j \in DOMAIN g.rs |-> Norm(g.rs[j])]]  v == Verdict(e)  r == e.rs[Len(e.rs)]
               k == IF v # None /\ v[1][1] = "skip" THEN "skip" ELSE IF v # None THEN "bad" ELSE IF r.ps = "ok" THEN "ok" ELSE "err"
           IN  /\ Report(l, v)
               /\ cnt' = [cnt EXCEPT ![k] = @ + 1]
               /\ types' = IF e.rel = "one" THEN types \cup LET ns == NodesF(r.tree) IN {ns[j].t : j \in DOMAIN ns} ELSE types
        /\ (l + W > Len(Log)) => PrintT("N " \o ToJson([cnt |-> cnt', types |-> types']))
Spec == Init /\ [][Next]_vars
(* every entry of the log was consumed *)
Done == TLCGet("stats").distinct = Len(Log) + W
=============================================================================
