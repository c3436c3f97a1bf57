-------------------------------- MODULE Dsl --------------------------------
(***************************************************************************)
(* Vocabulary in which the grammar (module Grammar) is written.            *)
(*                                                                         *)
(* Every helper below denotes a SEQUENCE of instructions, so programs are  *)
(* composed with Cat.  The instructions are interpreted by two machines:   *)
(*   Machine - the parser: deterministic, consumes a token sequence and    *)
(*             builds the concrete syntax tree on a value stack;           *)
(*   Gen     - the generator: the same programs run against an undetermined*)
(*             input, resolving each question nondeterministically.        *)
(*                                                                         *)
(* Machine state: current token index, value stack, control stack.         *)
(*   adv        move to the next token                                     *)
(*   n t        push a node of type t for the current token                *)
(*   e t        push a node of type t that has no token                    *)
(*   leaf k t   attach to the node on top a node of type t for the current *)
(*              token, under key k                                         *)
(*   put k      pop a value, attach it to the node below under key k       *)
(*   call r e   run rule r in environment e                                *)
(*   exp c      the language requires the current token to be c (used for  *)
(*              well-formedness and as a hint to the generator)            *)
(*   fail o     reject the script, at the token at offset o                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

RECURSIVE Cat(_)
Cat(ss) == IF Len(ss) = 0 THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))

MAXP == 999

D == [p |-> MAXP, al |-> FALSE, tb |-> FALSE, ad |-> FALSE, od |-> TRUE,
      sc |-> FALSE, ob |-> FALSE, rt |-> TRUE, sch |-> FALSE, ag |-> FALSE, u |-> {},
      f |-> "", q |-> 0, ch |-> FALSE]

------------------------------------------------------------------------------
(* conditions *)
Is(o, W)  == <<"is", o, W>>
T0(W)     == <<"is", 0, W>>
T1(W)     == <<"is", 1, W>>
T2(W)     == <<"is", 2, W>>
And(a, b) == <<"and", a, b>>
Or(a, b)  == <<"or", a, b>>
Not(a)    == <<"not", a>>
EnvC(fld) == <<"env", fld>>
FIn(W)    == <<"fin", W>>
Ident(o)  == <<"ident", o>>
Str(o)    == <<"str", o>>
Num(o)    == <<"num", o>>
Eof(o)    == <<"eof", o>>
Has(k)    == <<"has", k>>
Typ(W)    == <<"typ", W>>
Only(c, d) == <<"only", c, d>>      \* c, which the language allows only if d

------------------------------------------------------------------------------
(* instructions *)
A            == << <<"adv">> >>
X0(W)        == << <<"exp", 0, W>> >>
X1(W)        == << <<"exp", 1, W>> >>
XI           == << <<"expi">> >>     \* a name: identifier that is not reserved
XW           == << <<"expw">> >>     \* any word or quoted name
XNum         == << <<"expn">> >>
XStr         == << <<"exps">> >>
XT(W)        == << <<"expt", W>> >>  \* the node on top has a type in W
Bad          == << <<"bad">> >>      \* accepted, but outside the language
AX(W)        == << <<"adv">>, <<"exp", 0, W>> >>
N(t)         == << <<"n", t>> >>
Lit          == << <<"lit">> >>
Empty(t)     == << <<"e", t>> >>
Leaf(k, t)   == << <<"leaf", k, t>> >>
K(k)         == Leaf(k, "Keyword")
S(k)         == Leaf(k, "Symbol")
P(k)         == << <<"put", k>> >>
Swap         == << <<"swap">> >>
Drop         == << <<"drop">> >>
SetT(t)      == << <<"sett", t>> >>
L0           == << <<"l0">> >>
App          == << <<"app">> >>
L1           == << <<"l1">> >>
SetF         == << <<"setf">> >>
SetQ         == << <<"setq">> >>
SetCh        == << <<"setch">> >>
Group        == << <<"group">> >>
Fail(o)      == << <<"fail", o>> >>
Hint(W)      == << <<"hint", W>> >>
HintN(W)     == << <<"hintn", W>> >>   \* for the generator: the next token
Call(r, e)   == << <<"call", r, e>> >>
CallI(r, e, fs) == << <<"calli", r, e, fs>> >>
IfE(c, a, b) == << <<"if", c, Cat(a), Cat(b)>> >>
If(c, a)     == << <<"if", c, Cat(a), <<>> >> >>
Wh(c, b)     == << <<"wh", c, Cat(b)>> >>
Sw(cs, els)  == << <<"sw", [i \in DOMAIN cs |-> <<cs[i][1], Cat(cs[i][2])>>], Cat(els)>> >>
Scan(cs)     == << <<"scan", cs>> >>
Try(a, b)    == << <<"try", Cat(a) \o << <<"endtry">> >>, Cat(b)>> >>

(* frequent idioms *)
AK(k, W)     == AX(W) \o K(k)
AS(k, W)     == AX(W) \o S(k)
Wrap(t, k)   == N(t) \o Swap \o P(k)
Sub(k, r, e) == Call(r, e) \o P(k)
Opt(W, b)    == If(T1(W), << A >> \o b)
OptK(k, W)   == Opt(W, << K(k) >>)
Ex           == Call("expr", D)
ExA          == Call("expr", [D EXCEPT !.al = TRUE])
ExP(p)       == Call("expr", [D EXCEPT !.p = p])
ExT          == Call("expr", [D EXCEPT !.tb = TRUE])
Exs          == Call("exprs", D)
ExsA         == Call("exprs", [D EXCEPT !.al = TRUE])
ExsO(al, W)  == Call("exprs", [D EXCEPT !.al = al, !.ob = TRUE, !.u = W])   \* each may say ASC, DESC
ExsU(al, W)  == Call("exprs", [D EXCEPT !.al = al, !.u = W])
IdentR       == Call("identifier", D)
GExs(al)     == Call("gexprs", [D EXCEPT !.al = al])
SelE         == Call("select", D)
Table        == Call("table", D)
KWE(k)       == Cat(<< N("KeywordWithExpr"), A, Ex, P("expr"), P(k) >>)
OptKWE(k, W) == Opt(W, << KWE(k) >>)
KWG(al)      == Cat(<< N("KeywordWithGroupedXXX"), AX({"("}), GExs(al), P("group") >>)
OptKWG(k, W, al) == Opt(W, << KWG(al), P(k) >>)
OptOptions   == OptKWG("options", {"OPTIONS"}, FALSE)
Semi         == If(And(T1({";"}), EnvC("sc")), << A, S("semicolon") >>)
Comma        == Opt({","}, << S("comma") >>)
CommaOr(W)   == IfE(T1({","}), << A, S("comma") >>, << X1(W) >>)

RECURSIVE NKr(_)
NKr(ws) == IF Len(ws) = 0 THEN <<>>
           ELSE AX(Head(ws)) \o N("Keyword") \o App \o NKr(Tail(ws))
(* a vector of keywords; the current token is the first of them *)
NK(k, ws) == X0(Head(ws)) \o L0 \o N("Keyword") \o App \o NKr(Tail(ws)) \o P(k)
OrReplace    == Opt({"OR"}, << NK("or_replace", << {"OR"}, {"REPLACE"} >>) >>)
IfNotExists  == Opt({"IF"}, << NK("if_not_exists", << {"IF"}, {"NOT"}, {"EXISTS"} >>) >>)
IfExists     == Opt({"IF"}, << NK("if_exists", << {"IF"}, {"EXISTS"} >>) >>)
AIdent(k)    == Cat(<< A, IdentR, P(k) >>)
TrailAlias   == IfE(T1({"AS"}), << A, K("as"), A, XW, Leaf("alias", "Identifier") >>,
                    << If(Ident(1), << A, Leaf("alias", "Identifier") >>) >>)
(* KeywordSequence: current keyword, then the keyword in W *)
KSeq(W)      == Cat(<< N("KeywordSequence"), AX(W), N("Keyword"), P("next_keyword") >>)
DefaultCollate(e) == Cat(<< N("KeywordSequence"), AX({"COLLATE"}), N("KeywordWithExpr"), A >>
                         \o e \o << P("expr"), P("next_keyword"), P("default_collate") >>)
StrLeaf      == XStr \o N("StringLiteral")
=============================================================================
