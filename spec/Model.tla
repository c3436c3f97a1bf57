------------------------------- MODULE Model --------------------------------
(***************************************************************************)
(* The properties, stated on the specification itself and checked on every *)
(* derivation that GenMC enumerates.  Indices of tokens stand for tokens.  *)
(***************************************************************************)
EXTENDS GenMC

Complete == m.st = "done" /\ m.wf
N_ == Len(T) - 1
IsList(v) == "l" \in DOMAIN v
Kids(n, x) == IF IsList(n.c[x]) THEN n.c[x].l ELSE <<n.c[x]>>
RECURSIVE AllF(_)
All(n) == <<n>> \o FoldSet(LAMBDA x, acc : acc \o AllF(Kids(n, x)), <<>>, DOMAIN n.c)
AllF(f) == FoldLeft(LAMBDA acc, n : acc \o All(n), <<>>, f)
Forest_ == m.stk[1].l
Nodes_  == AllF(Forest_)
Own(f)  == SelectSeq([j \in DOMAIN f |-> f[j].k], LAMBDA k : k > 0)

(* every token exactly once; those below a node are contiguous; statements follow each other *)
Lo(ks) == Min(Range(ks))
Hi(ks) == Max(Range(ks))
Contig(n) == LET ks == Own(All(n)) IN Len(ks) > 0 => Hi(ks) - Lo(ks) + 1 = Len(ks) /\ Cardinality(Range(ks)) = Len(ks)
LosslessInv == Complete => LET ns == Nodes_  ks == Own(ns) IN
                 /\ Len(ks) = N_ /\ Range(ks) = 1..N_
                 /\ \A j \in DOMAIN ns : Contig(ns[j])
                 /\ \A j \in 1..(Len(Forest_) - 2) : Hi(Own(All(Forest_[j]))) + 1 = Lo(Own(All(Forest_[j + 1])))

(* the parser accepts what the generator derived, with the same tree *)
AcceptInv == Complete => LET p == Parse(T) IN p.st = "done" /\ p.wf /\ p.stk = m.stk

(* cut off anywhere, the parser still answers: a tree, or a rejection at one of the tokens *)
CutAt(k) == SubSeq(T, 1, k) \o <<T[Len(T)]>>
TotalInv == Complete => \A k \in 0..N_ : LET p == Parse(CutAt(k)) IN p.st = "done" \/ (p.st = "err" /\ p.err \in 1..(k + 1))

(* comments: with one before every token, on the same line or not, each is attached exactly once *)
Cm(i) == [T[Len(T)] EXCEPT !.d = "cmt", !.l = i, !.c = 3, !.s = "/**/", !.w = 4]
Laced(odd) == Flat([i \in DOMAIN T |-> << [Cm(i) EXCEPT !.l = IF odd THEN 1 ELSE i], T[i] >>])
CommentInv == Complete => \A odd \in {TRUE, FALSE} :
                LET at == Att(Laced(odd)) IN
                /\ Len(at) = Len(T)
                /\ FoldLeft(LAMBDA s, a : s + Len(a.lead) + Len(a.trail), 0, at) = Len(T)
                /\ Code(Laced(odd)) = T

(* operators: an operand never binds weaker than its operator, unless it is parenthesised; equal on the left only *)
BinT == {"BinaryOperator", "IsDistinctFromOperator"}
PrecAt(n) == Prec(T, n.k)
OperandOk(n, x, strict) ==
  LET c == n.c[x] IN
  c.t \in BinT \cup {"BetweenOperator", "InOperator"} => (IF strict THEN PrecAt(c) < PrecAt(n) ELSE PrecAt(c) <= PrecAt(n))
PrecInv == Complete => LET ns == Nodes_ IN \A j \in DOMAIN ns : LET n == ns[j] IN
             n.t \in BinT /\ n.k > 0 => OperandOk(n, "left", FALSE) /\ OperandOk(n, "right", TRUE)

(* two scripts one after the other parse as the one, then the other *)
RECURSIVE Shift(_, _)
Shift(n, d) == [t |-> n.t, k |-> IF n.k > 0 THEN n.k + d ELSE IF n.k < 0 THEN n.k - d ELSE 0,
                c |-> [x \in DOMAIN n.c |-> IF IsList(n.c[x]) THEN [l |-> [j \in DOMAIN n.c[x].l |-> Shift(n.c[x].l[j], d)]]
                                            ELSE Shift(n.c[x], d)]]
Far(t, d) == IF t.d = "eof" THEN t ELSE [t EXCEPT !.c = @ + 4 * d + 40]
ComposeInv == Complete /\ N_ > 0 /\ T[N_].u = ";" =>
                LET U == SubSeq(T, 1, N_) \o [j \in DOMAIN T |-> Far(T[j], N_)]  p == Parse(U)
                IN  p.st = "done" /\ p.stk[1].l = SubSeq(Forest_, 1, Len(Forest_) - 1)
                                                 \o [j \in DOMAIN Forest_ |-> Shift(Forest_[j], N_)]

(* a script in a block parses as a list of the same statements *)
Kw(t, w) == [t EXCEPT !.d = "word", !.s = w, !.u = w, !.l = 1, !.c = 1, !.w = 5]
BlockInv == Complete /\ N_ > 0 /\ T[N_].u = ";" /\ T[1].u \notin {"TRANSACTION", ";", "END", "EXCEPTION"} =>
              LET U == <<Kw(T[1], "BEGIN")>> \o [j \in 1..N_ |-> Far(T[j], 1)] \o <<[Kw(T[1], "END") EXCEPT !.l = 9], T[Len(T)]>>
                  p == Parse(U)
              IN  /\ p.st = "done" /\ p.stk[1].l[1].t = "BeginStatement"
                  /\ p.stk[1].l[1].c["stmts"].l = [j \in 1..(Len(Forest_) - 1) |-> Shift(Forest_[j], 1)]
=============================================================================
