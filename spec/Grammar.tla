------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The BigQuery script grammar, one rule per syntactic construct, written  *)
(* in the instruction vocabulary of module Dsl.  Rules is a constant.      *)
(***************************************************************************)
EXTENDS Dsl, Integers

SetOps   == {"UNION", "INTERSECT", "EXCEPT", "OUTER"}
Markers  == {",", ">", ")", "TYPE", "<"}
LitTypes == {"DATE", "TIME", "DATETIME", "TIMESTAMP", "NUMERIC", "BIGNUMERIC",
             "DECIMAL", "BIGDECIMAL", "JSON"}
BinOps   == {"*", "/", "||", "+", "-", "<<", ">>", "&", "^", "|", "=", "<", ">",
             "<=", ">=", "<>", "!=", "LIKE", "AND", "OR", "=>"}
SelUntil == {"FROM", "WHERE", "GROUP", "HAVING", "QUALIFY", "WINDOW", "ORDER",
             "LIMIT", "UNION", "INTERSECT", "EXCEPT", ";", ")", "|>"}
QueryStart == {"SELECT", "WITH", "(", "FROM"}

------------------------------------------------------------------------------
(* expressions *)

(* without parentheses of its own, a query is the only argument of a function *)
QueryArg == << <<"exp", 0 - 1, {"("}>> >>
(* a call in a FROM clause *)
PlainCall == If(Or(Or(Or(Has("distinct"), Has("ignore_nulls")), Or(Has("orderby"), Has("limit"))), Or(Has("having"), Has("over"))), << Bad >>)

R_prefix == Cat(<<
  Sw(<<
    << T0({"*"}), << << <<"exp", 0 - 1, {"SELECT", "ALL", "DISTINCT", "STRUCT", "VALUE", "DIFFERENTIAL_PRIVACY", ",", "(", ".", ")"}>> >>,
         N("Asterisk"),
         If(T1({"EXCEPT"}),  << A, KWG(FALSE), P("except") >>),
         If(T1({"REPLACE"}), << A, KWG(TRUE), P("replace") >>) >> >>,
    << T0({"("}), << N("GroupedExpr"), A,
         Sw(<< << Or(T0({"SELECT", "FROM"}), And(T0({"WITH"}), Not(T1({"("})))),
                  << SetT("GroupedStatement"), Sub("stmt", "select", D), AS("rparen", {")"}) >> >>,
               << T0({")"}), << SetT("EmptyStruct"), S("rparen") >> >> >>,
            << ExsA, Group, AS("rparen", {")"}) >>) >> >>,
    << T0({"STRUCT"}), << Call("type", D), AX({"("}), N("StructLiteral"), L0,
         Wh(Not(T1({")"})), << A, ExA, CommaOr({")"}), App >>),
         P("exprs"), AS("rparen", {")"}), Swap, P("type") >> >>,
    << T0({"RANGE"}),
       << IfE(Not(T1({"("})),
              << Call("type", D), XT({"Type"}), A, XStr, Wrap("RangeLiteral", "type") >>,
              << Lit >>) >> >>,
    << T0({"["}), << N("ArrayLiteral"), A, Call("array", D) >> >>,
    << T0({"ARRAY"}),
       << IfE(Not(T1({"("})),
              << Call("type", D), AX({"["}), Wrap("ArrayLiteral", "type"), A, Call("array", D) >>,
              << Lit >>) >> >>,
    << T0({"-", "+", "~"}), << N("UnaryOperator"), A, ExP(103), P("right") >> >>,
    << T0(LitTypes),
       << IfE(Or(Str(1), And(T1({"B", "R", "BR", "RB"}), Str(2))),
              << N("UnaryOperator"), A, ExP(2), P("right") >>, << Lit >>) >> >>,
    << T0({"INTERVAL"}), << N("IntervalLiteral"), A, Ex, P("expr"), A, XW, K("date_part"),
         Opt({"TO"}, << K("to"), A, XW, K("to_date_part") >>) >> >>,
    << T0({"TABLE", "MODEL"}), << N("UnaryOperator"), A,
         Call("expr", [D EXCEPT !.p = 2, !.tb = TRUE]), P("right") >> >>,
    << T0({"B", "R", "BR", "RB"}),
       << IfE(Str(1), << N("UnaryOperator"), A, ExP(1), P("right") >>, << Lit >>) >> >>,
    << T0({"WITH"}), << IfE(Not(T1({"("})), << QueryArg, SelE, X1({")"}) >>, << Lit >>) >> >>,
    << T0({"SELECT", "FROM"}), << QueryArg, SelE, X1({")"}) >> >>,
    << T0({"NOT"}), << N("UnaryOperator"), A, ExP(110), P("right") >> >>,
    << T0({"CASE"}), << N("CaseExpr"), A,
         If(Not(T0({"WHEN"})), << Ex, P("expr"), AX({"WHEN"}) >>),
         L0,
         Wh(T0({"WHEN"}), << N("CaseExprArm"), A, Ex, P("expr"), AK("then", {"THEN"}), A, Ex,
                             P("result"), A, App >>),
         If(T0({"ELSE"}), << N("CaseExprArm"), A, Ex, P("result"), App, AX({"END"}) >>),
         P("arms"), X0({"END"}), K("end") >> >>
   >>, << Lit >>)
  >>)

(* elements of an array literal; the current token is the one after "[" *)
R_array == Cat(<<
  IfE(T0({"]"}), << L0, P("exprs") >>, << Exs, P("exprs"), AX({"]"}) >>),
  S("rparen") >>)

R_call == Cat(<<   \* value stack: callee.  current token: "("
  Wrap("CallingFunction", "func"),
  OptK("distinct", {"DISTINCT"}),
  A,
  If(Not(T0({")"})), <<
    Sw(<<
      << FIn({"CAST", "SAFE_CAST"}), << Ex, AX({"AS"}), Wrap("CastArgument", "cast_from"), A,
           Sub("cast_to", "type", D), OptKWE("format", {"FORMAT"}), L1, P("args") >> >>,
      << FIn({"EXTRACT"}), << Ex, AX({"FROM"}), Wrap("ExtractArgument", "extract_datepart"), A, Ex,
           P("extract_from"),
           Opt({"AT"}, << NK("at_time_zone", << {"AT"}, {"TIME"}, {"ZONE"} >>), A, Ex, P("time_zone") >>),
           L1, P("args") >> >>,
      << FIn({"WITH"}), << ExsA, P("args") >> >>
     >>, << Exs, P("args") >>),
    Opt({"RESPECT", "IGNORE"}, << NK("ignore_nulls", << {"RESPECT", "IGNORE"}, {"NULLS"} >>) >>),
    Opt({"HAVING"}, << N("KeywordSequence"), AX({"MAX", "MIN"}), N("KeywordWithExpr"), A, Ex, P("expr"),
                       P("next_keyword"), P("having") >>),
    Opt({"ORDER"}, << Call("xxxby", D), P("orderby") >>),
    OptKWE("limit", {"LIMIT"}),
    AX({")"}) >>),
  S("rparen"),
  Opt({"OVER"}, << N("OverClause"), A, Sub("window", "winexpr", D), P("over") >>) >>)

R_dot == Cat(<<   \* value stack: left.  current token: "."
  SetCh,
  IfE(EnvC("ch"), << N("FunctionChain") >>, << N("DotOperator") >>), Swap, P("left"), A,
  IfE(T0({"*"}), << Ex >>,
      << IfE(EnvC("ch"),
             << CallI("expr", [D EXCEPT !.p = 102], {"tb"}) >>,
             << XW, CallI("expr", [D EXCEPT !.p = 101, !.ad = TRUE], {"tb"}) >>) >>),
  P("right") >>)

R_binary == Cat(<<   \* value stack: left.  current token: the operator
  SetQ, Wrap("BinaryOperator", "left"),
  If(And(T0({"IS"}), T1({"NOT"})), << A, K("not") >>),
  OptK("quantifier", {"ALL", "ANY", "SOME"}),
  A, CallI("expr", D, {"q"}), P("right") >>)

R_isdistinct == Cat(<<
  SetQ, Wrap("IsDistinctFromOperator", "left"), OptK("not", {"NOT"}),
  AK("distinct", {"DISTINCT"}), AK("from", {"FROM"}), A, CallI("expr", D, {"q"}), P("right") >>)

R_between == Cat(<<
  SetQ, Wrap("BetweenOperator", "left"), A, CallI("expr", D, {"q"}), P("right_min"),
  AK("and", {"AND"}), A, CallI("expr", D, {"q"}), P("right_max") >>)

R_in == Cat(<<
  Wrap("InOperator", "left"),
  IfE(T1({"UNNEST"}), << A, HintN({"("}), ExP(102), XT({"CallingFunction"}), PlainCall, SetT("CallingUnnest"), P("right") >>,
      << AX({"("}),
         IfE(Or(T1({"SELECT", "FROM"}), And(T1({"WITH"}), Not(T2({"("})))),
             << N("GroupedStatement"), A, SelE, P("stmt"), AS("rparen", {")"}), P("right") >>,
             << GExs(FALSE), P("right") >>) >>) >>)

R_expr == Cat(<<
  Sw(<< << EnvC("tb"), << N("Unknown"), Drop, IdentR >> >>,
        << EnvC("ad"), << N("Identifier") >> >> >>,
     << Call("prefix", D) >>),
  Wh(<<"prec">>, <<
    Sw(<<
      << T1({"("}), << XT({"Identifier", "DotOperator", "MultiTokenIdentifier", "GroupedExpr"}), SetF, A,
                       CallI("call", D, {"f"}) >> >>,
      << T1({"["}), << A, Wrap("AccessOperator", "left"), A, Ex, P("right"), AS("rparen", {"]"}) >> >>,
      << T1({"."}), << A, CallI("dot", D, {"tb"}) >> >>,
      << T1(BinOps), << A, Call("binary", D) >> >>,
      << T1({"IS"}), << A,
           IfE(Or(T1({"DISTINCT"}), And(T1({"NOT"}), T2({"DISTINCT"}))),
               << Call("isdistinct", D) >>, << Call("binary", D) >>) >> >>,
      << T1({"BETWEEN"}), << A, Call("between", D) >> >>,
      << T1({"IN"}), << A, Call("in", D) >> >>,
      << T1({"NOT"}), << A, N("Keyword"), Swap, A,
           Sw(<< << T0({"IN"}), << Call("in", D) >> >>,
                 << T0({"LIKE"}), << Call("binary", D) >> >>,
                 << T0({"BETWEEN"}), << Call("between", D) >> >> >>, << Fail(1) >>),
           Swap, P("not") >> >>
     >>, << Fail(0) >>) >>),
  If(EnvC("al"), <<
    IfE(T1({"AS"}), << A, K("as"), A, Call("expr", [D EXCEPT !.od = FALSE]), P("alias") >>,
        << If(Ident(1), << A, Leaf("alias", "Identifier") >>) >>) >>),
  If(And(EnvC("od"), <<"top">>), <<
    If(Only(T1({"ASC", "DESC"}), EnvC("ob")), << A, If(Not(EnvC("ob")), << Bad >>), K("order") >>),
    If(Only(And(T1({"NULLS"}), T2({"FIRST", "LAST"})), EnvC("ob")),
       << If(Not(EnvC("ob")), << Bad >>), A, NK("null_order", << {"NULLS"}, {"FIRST", "LAST"} >>) >>) >>)
  >>)

(* INNER, LEFT, FULL also announce a set operator *)
SetOpMode == And(T1({"LEFT", "INNER", "FULL"}),
                 Or(T2({"UNION", "INTERSECT", "EXCEPT"}),
                    And(T2({"OUTER"}), Is(3, {"UNION", "INTERSECT", "EXCEPT"}))))

R_exprs == Cat(<<
  CallI("expr", D, {"al", "od", "ob"}), Comma, L1,
  Wh(And(And(And(<<"lastcomma">>, Not(<<"until">>)), Not(SetOpMode)), Not(Eof(1))),
     << A, CallI("expr", D, {"al", "ob"}), Comma, App >>) >>)

R_gexprs == Cat(<<
  X0({"("}), N("GroupedExprs"),
  If(Not(T1({")"})), << A, CallI("exprs", [D EXCEPT !.u = {")"}], {"al"}), P("exprs") >>),
  AS("rparen", {")"}) >>)

R_ident1 == Cat(<<
  XI, N("Identifier"), L0, Wh(<<"adj">>, << A, << <<"expglue">> >>, N("Identifier"), App >>),
  IfE(<<"nil">>, << Drop >>, << Swap, SetT("MultiTokenIdentifier"), Swap, P("trailing_idents") >>) >>)

R_ident2 == Cat(<<
  XW, N("Identifier"), L0, Wh(<<"adj">>, << A, << <<"expglue">> >>, N("Identifier"), App >>),
  IfE(<<"nil">>, << Drop >>, << Swap, SetT("MultiTokenIdentifier"), Swap, P("trailing_idents") >>) >>)

R_identifier == Cat(<<
  Call("ident1", D),
  Wh(T1({"."}), << A, Wrap("DotOperator", "left"), A, Sub("right", "ident2", D) >>) >>)

------------------------------------------------------------------------------
(* types, column schemas and constraints *)

R_enforced == IfE(T0({"NOT"}), << KSeq({"ENFORCED"}) >>, << N("Keyword") >>)

R_constraint == Cat(<<
  IfE(T0({"CONSTRAINT"}), << N("Keyword"),
      IfE(T1({"IF"}),
        << L0, A, N("Keyword"), App, AX({"NOT"}), N("Keyword"), App, AX({"EXISTS"}), N("Keyword"), App,
           A, IdentR, AX({"PRIMARY", "FOREIGN"}), Wrap("Constraint", "ident"), Swap, P("if_not_exists"),
           Swap, P("constraint") >>,
        << A, IdentR, AX({"PRIMARY", "FOREIGN"}), Wrap("Constraint", "ident"), Swap, P("constraint") >>) >>,
      << X0({"PRIMARY", "FOREIGN"}), N("Constraint") >>),
  AK("key", {"KEY"}),
  Opt({"("}, << GExs(FALSE), P("columns") >>),
  Opt({"REFERENCES"}, << N("KeywordWithExpr"), A, ExT, P("expr"), P("references") >>),
  Opt({"NOT", "ENFORCED"}, << Call("enforced", D), P("enforced") >>) >>)

(* ( column schemas and table constraints ) ; parameters of routines *)
R_gtd == Cat(<<
  N("GroupedTypeDeclarationOrConstraints"), A, L0,
  Wh(Not(T0({">", ")"})), <<
    Sw(<<
      << And(T0({"IN", "OUT", "INOUT"}), Not(Is(2, Markers))),
         << N("Keyword"), A, XW, Wrap("TypeDeclaration", "in_out"), A,
            CallI("type", D, {"sch", "ag"}), P("type") >> >>,
      << Or(Or(And(T0({"PRIMARY"}), T1({"KEY"})), And(T0({"FOREIGN"}), T1({"KEY"}))),
            And(T0({"CONSTRAINT"}), Not(Is(2, Markers)))),
         << Call("constraint", D) >> >>,
      << Not(T1(Markers)),
         << XW, N("TypeDeclaration"), A, CallI("type", D, {"sch", "ag"}), P("type") >> >>
     >>, << Empty("TypeDeclaration"), CallI("type", D, {"sch", "ag"}), P("type") >>),
    A,
    IfE(T0({","}), << S("comma"), A >>, << X0({")", ">"}) >>),
    App >>),
  IfE(<<"nil">>, << Drop >>, << P("declarations") >>),
  S("rparen") >>)

R_type == Cat(<<
  Sw(<<
    << T0({"ARRAY", "RANGE"}), << N("Type"),
         Opt({"<"}, << N("GroupedType"), A, CallI("type", D, {"sch"}), P("type"), AS("rparen", {">"}),
                       P("type_declaration") >>) >> >>,
    << T0({"STRUCT", "TABLE"}), << N("Type"),
         Opt({"<"}, << N("GroupedTypeDeclarationOrConstraints"), A, L0,
             Wh(Not(T0({">"})), <<
               IfE(Not(T1({",", ">", "TYPE", "<"})),
                   << XW, N("TypeDeclaration"), A >>, << Empty("TypeDeclaration") >>),
               CallI("type", D, {"sch"}), P("type"), A,
               IfE(T0({","}), << S("comma"), A >>, << X0({">"}) >>),
               App >>),
             P("declarations"), S("rparen"), P("type_declaration") >>) >> >>,
    << T0({"ANY"}), << N("Type"), AX({"TYPE"}), Leaf("type", "Keyword") >> >>
   >>, << XW, N("Type"), Opt({"("}, << GExs(FALSE), P("parameter") >>) >>),
  Opt({"COLLATE"}, << N("KeywordWithExpr"), A, StrLeaf, P("expr"), P("collate") >>),
  Opt({"CONSTRAINT"}, << N("KeywordWithExpr"), A, IdentR, P("expr"), P("constraint") >>),
  Opt({"PRIMARY"}, << KSeq({"KEY"}), P("primarykey"),
      Opt({"NOT", "ENFORCED"}, << Call("enforced", D), P("enforced") >>) >>),
  Opt({"REFERENCES"}, << N("KeywordWithExpr"), A, ExT, P("expr"), P("references"),
      Opt({"NOT", "ENFORCED"}, << Call("enforced", D), P("enforced") >>) >>),
  If(EnvC("sch"), <<
    OptKWE("default", {"DEFAULT"}),
    Opt({"NOT"}, << NK("not_null", << {"NOT"}, {"NULL"} >>) >>),
    OptOptions >>),
  If(EnvC("ag"), << Opt({"NOT"}, << KSeq({"AGGREGATE"}), P("aggregate") >>) >>) >>)

------------------------------------------------------------------------------
(* queries *)

R_cte == Cat(<<
  XI, N("WithQuery"), AK("as", {"AS"}), AX({"("}), N("GroupedStatement"), A,
  SelE, P("stmt"),
  A, If(Not(T0({")"})), << Fail(0) >>), S("rparen"),
  P("stmt"), Comma >>)

R_with == Cat(<<
  N("WithClause"), OptK("recursive", {"RECURSIVE"}), L0, If(T1({"SELECT", "(", "|>", "FROM"}), << Bad >>),
  Wh(Not(T1({"SELECT", "(", "|>", "FROM"})),
     << A, Call("cte", D), App, IfE(<<"lastcomma">>, <<>>, << X1({"SELECT", "(", "|>", "FROM"}) >>) >>),
  P("queries") >>)

R_limit == Cat(<<
  N("LimitClause"), A, Ex, P("expr"), OptKWE("offset", {"OFFSET"}), P("limit") >>)

R_xxxby == Cat(<< N("XXXByExprs"), AK("by", {"BY"}), A, ExsO(FALSE, {}), P("exprs") >>)

R_groupby == Cat(<<
  N("GroupByExprs"), AK("by", {"BY"}), A,
  Sw(<< << T0({"ROLLUP", "CUBE"}), << NK("how", << {"ROLLUP", "CUBE"} >>), A,
            CallI("exprs", D, {"al"}), P("exprs") >> >>,
        << T0({"GROUPING"}), << NK("how", << {"GROUPING"}, {"SETS"} >>), A,
            CallI("exprs", D, {"al"}), P("exprs") >> >>,
        << T0({"ALL"}), << NK("how", << {"ALL"} >>) >> >> >>,
     << CallI("exprs", D, {"al", "ob"}), P("exprs") >>) >>)

R_winexpr == IfE(T0({"("}), <<
  N("WindowSpecification"),
  If(Ident(1), << A, Leaf("name", "Identifier") >>),
  Opt({"PARTITION"}, << Call("xxxby", D), P("partitionby") >>),
  Opt({"ORDER"}, << Call("xxxby", D), P("orderby") >>),
  Opt({"RANGE", "ROWS"}, <<
    N("WindowFrameClause"),
    IfE(T1({"BETWEEN"}), << A, K("between"), A, Call("bound", D), P("start"),
                            AK("and", {"AND"}), A, Call("bound", D), P("end") >>,
        << IfE(Not(T1({")"})), << A, Call("bound", D), P("start") >>, << Bad >>) >>),
    P("frame") >>),
  AS("rparen", {")"}) >>, << XI, N("Identifier") >>)

R_bound == Cat(<< L0, IfE(T0({"UNBOUNDED", "CURRENT"}), << N("Keyword") >>, << Ex >>), App,
                  AX({"PRECEDING", "FOLLOWING", "ROW"}), N("Keyword"), App >>)

R_window == Cat(<<
  N("WindowClause"), L0,
  Wh(Ident(1), << A, N("WindowExpr"), AK("as", {"AS"}), A, Sub("window", "winexpr", D), Comma, App >>),
  P("window_exprs") >>)

R_setop == Cat(<<   \* value stack: left query.  current token: operator or method
  IfE(T0({"INNER", "FULL", "LEFT", "OUTER"}),
      << IfE(T1({"OUTER"}), << KSeq({"OUTER"}) >>, << N("Keyword") >>),
         AX({"UNION", "INTERSECT", "EXCEPT"}), Wrap("SetOperator", "method") >>,
      << N("SetOperator") >>),
  AK("distinct_or_all", {"ALL", "DISTINCT"}),
  IfE(T1({"BY"}), << A, Sub("by", "byname", D) >>,
      << Opt({"STRICT", "CORRESPONDING"}, << Sub("corresponding", "corresponding", D) >>) >>),
  Swap, P("left"), A, Call("select", [D EXCEPT !.rt = FALSE]), P("right") >>)

R_byname == Cat(<<
  N("KeywordSequence"), AX({"NAME"}),
  IfE(T1({"ON"}), << N("KeywordSequence"), A, KWG(FALSE), P("next_keyword") >>, << N("Keyword") >>),
  P("next_keyword") >>)

R_corresponding == IfE(T0({"STRICT"}),
  << N("KeywordSequence"), AX({"CORRESPONDING"}), Call("corr1", D), P("next_keyword") >>,
  << Call("corr1", D) >>)

R_corr1 == IfE(T1({"BY"}), << N("KeywordSequence"), A, KWG(FALSE), P("next_keyword") >>, << N("Keyword") >>)

R_select == Sw(<<
  << T0({"("}), <<
     N("GroupedStatement"), A,
     SelE, P("stmt"),
     A, If(Not(T0({")"})), << Fail(0) >>), S("rparen"),
     Wh(And(Or(T1(SetOps), SetOpMode), EnvC("rt")), << A, Call("setop", D) >>),
     If(And(T1({"ORDER"}), EnvC("rt")), << A, Call("xxxby", D), P("orderby") >>),
     If(And(T1({"LIMIT"}), EnvC("rt")), << A, Call("limit", D) >>),
     IfE(And(And(T1({";"}), EnvC("sc")), EnvC("rt")), << A, S("semicolon") >>,
         << If(And(T1({"|>"}), EnvC("rt")), << A, CallI("pipe", D, {"sc"}) >>) >>) >> >>,
  << T0({"WITH"}), <<
     Call("with", D), A, If(And(Not(EnvC("rt")), T0({"FROM"})), << Bad >>),
     CallI("select", D, {"sc"}),
     Swap, P("with") >> >>,
  << T0({"FROM"}), << If(Not(EnvC("rt")), << Bad >>), CallI("from", D, {"sc"}) >> >>
  >>, <<
  X0({"SELECT"}), N("SelectStatement"),
  If(And(T1({"WITH"}), Not(T2({"("}))),
     << A, N("DifferentialPrivacyClause"), AK("differential_privacy", {"DIFFERENTIAL_PRIVACY"}),
        OptOptions, P("differential_privacy") >>),
  OptK("distinct_or_all", {"ALL", "DISTINCT"}),
  Opt({"AS"}, << NK("as_struct_or_value", << {"AS"}, {"STRUCT", "VALUE"} >>) >>),
  A, ExsU(TRUE, SelUntil), P("exprs"),
  Opt({"FROM"}, << N("KeywordWithExpr"), A, Table, P("expr"), P("from") >>),
  OptKWE("where", {"WHERE"}),
  Opt({"GROUP"}, << Call("groupby", D), P("groupby") >>),
  OptKWE("having", {"HAVING"}),
  OptKWE("qualify", {"QUALIFY"}),
  Opt({"WINDOW"}, << Call("window", D), P("window") >>),
  Opt({"ORDER"}, << Call("xxxby", D), P("orderby") >>),
  Opt({"LIMIT"}, << Call("limit", D) >>),
  Wh(And(Or(T1(SetOps), SetOpMode), EnvC("rt")), << A, Call("setop", D) >>),
  IfE(And(T1({";"}), EnvC("sc")), << A, S("semicolon") >>,
      << If(And(T1({"|>"}), EnvC("rt")), << A, CallI("pipe", D, {"sc"}) >>) >>) >>)

R_gtable == Cat(<< N("GroupedExpr"), A, Table, P("expr"), AS("rparen", {")"}) >>)

R_sample == Cat(<< X0({"("}), N("TableSampleRatio"), A, Ex, P("expr"), AK("percent", {"PERCENT"}),
                   AS("rparen", {")"}) >>)

BaseTable == XT({"Identifier", "DotOperator", "MultiTokenIdentifier"})
R_table == Cat(<<
  Sw(<<
    << T0({"("}), << IfE(<<"pstmt">>, << Try(<< Call("select", [D EXCEPT !.rt = FALSE]) >>, << Call("gtable", D) >>) >>,
                        << Call("gtable", D) >>) >> >>,
    << T0({"UNNEST"}), << HintN({"("}), Ex, XT({"CallingFunction"}), PlainCall, SetT("CallingUnnest") >> >>
   >>, << ExT, XT({"Identifier", "DotOperator", "MultiTokenIdentifier", "CallingFunction"}) >>),
  If(Typ({"CallingFunction"}), << PlainCall, SetT("CallingTableFunction") >>),
  If(Not(And(T1({"PIVOT", "UNPIVOT", "MATCH_RECOGNIZE", "OPTIONS"}), T2({"(", "INCLUDE", "EXCLUDE"}))), << TrailAlias >>),
  Opt({"FOR"}, << BaseTable, N("ForSystemTimeAsOfClause"), AX({"SYSTEM_TIME"}),
                  NK("system_time_as_of", << {"SYSTEM_TIME"}, {"AS"}, {"OF"} >>), A, Ex, P("expr"),
                  P("for_system_time_as_of") >>),
  Opt({"WITH"}, << N("WithOffsetClause"), AK("offset", {"OFFSET"}), TrailAlias, P("with_offset") >>),
  Sw(<<
    << T1({"PIVOT"}), << A, N("PivotOperator"), AX({"("}), Sub("config", "pivot", D), TrailAlias, P("pivot") >> >>,
    << T1({"UNPIVOT"}), << A, N("UnpivotOperator"),
         Opt({"INCLUDE", "EXCLUDE"}, << NK("include_or_exclude_nulls", << {"INCLUDE", "EXCLUDE"}, {"NULLS"} >>) >>),
         AX({"("}), Sub("config", "unpivot", D), TrailAlias, P("unpivot") >> >>,
    << T1({"MATCH_RECOGNIZE"}), << A, Sub("match_recognize", "matchrec", D) >> >>
   >>, <<>>),
  Opt({"TABLESAMPLE"}, << BaseTable, N("TableSampleClause"), AK("system", {"SYSTEM"}), A, Sub("group", "sample", D),
                          P("tablesample") >>),
  Wh(And(And(T1({"LEFT", "RIGHT", "CROSS", "INNER", "FULL", "JOIN", ","}), EnvC("rt")), Not(SetOpMode)), <<
    A,
    IfE(T0({"JOIN", ","}), << N("JoinOperator") >>,
        << N("Keyword"), A,
           IfE(T0({"OUTER"}), << N("Keyword"), AX({"JOIN"}), Wrap("JoinOperator", "outer"), Swap, P("join_type") >>,
               << X0({"JOIN"}), Wrap("JoinOperator", "join_type") >>) >>),
    A, Call("table", [D EXCEPT !.rt = FALSE]), P("right"),
    Call("oncond", D),
    Swap, P("left") >>) >>)

(* value stack: a join node *)
R_oncond ==
  IfE(T1({"ON"}), << A, KWE("on") >>,
      << If(T1({"USING"}), << A, X1({"("}), Ex, XT({"CallingFunction"}), P("using") >>) >>)

R_pivot == Cat(<<
  N("PivotConfig"), A, ExsA, P("exprs"),
  AX({"FOR"}), N("KeywordWithExpr"), A, XW, Leaf("expr", "Identifier"), P("for"),
  AX({"IN"}), KWG(TRUE), P("in"), AS("rparen", {")"}) >>)

R_unpivot == Cat(<<
  N("UnpivotConfig"), A, IfE(T0({"("}), << GExs(FALSE) >>, << ExA >>), P("expr"),
  AX({"FOR"}), N("KeywordWithExpr"), A, XW, Leaf("expr", "Identifier"), P("for"),
  AX({"IN"}), N("KeywordWithGroupedXXX"), AX({"("}), N("GroupedExprs"), L0,
  Wh(And(<<"lastcomma">>, Not(T1({")"}))), << Call("unpitem", D), App >>),
  P("exprs"), AS("rparen", {")"}), P("group"), P("in"), AS("rparen", {")"}) >>)

R_unpitem == Cat(<<
  A, IfE(T0({"("}), << GExs(FALSE) >>, << Ex >>),
  OptK("as", {"AS"}),
  If(Or(Str(1), Num(1)), << A, Ex, P("row_value_alias") >>),
  Comma >>)

R_matchrec == Cat(<<
  N("MatchRecognizeClause"), AX({"("}), Sub("config", "matchcfg", D), TrailAlias >>)

R_matchcfg == Cat(<<
  N("MatchRecognizeConfig"),
  Opt({"PARTITION"}, << Call("xxxby", D), P("partitionby") >>),
  Opt({"ORDER"}, << Call("xxxby", D), P("orderby") >>),
  Opt({"MEASURES"}, << N("KeywordWithExprs"), A, Call("exprs", [D EXCEPT !.al = TRUE, !.od = FALSE]), P("exprs"),
                       P("measures") >>),
  Opt({"AFTER"}, << N("KeywordSequence"), AX({"MATCH"}), N("KeywordSequence"), AX({"SKIP"}), N("KeywordSequence"),
                    AX({"PAST", "TO"}), N("KeywordSequence"), AX({"LAST", "NEXT"}), N("KeywordSequence"),
                    AX({"ROW"}), N("KeywordSequence"),
                    P("next_keyword"), P("next_keyword"), P("next_keyword"), P("next_keyword"), P("next_keyword"),
                    P("skip_rule") >>),
  Opt({"PATTERN"}, << N("PatternClause"), AX({"("}), Sub("pattern", "pattern", D), P("pattern") >>),
  Opt({"DEFINE"}, << N("KeywordWithExprs"), A, Call("exprs", [D EXCEPT !.al = TRUE, !.od = FALSE]), P("exprs"),
                     P("define") >>),
  OptOptions,
  AS("rparen", {")"}) >>)

R_gpattern == Cat(<<
  N("GroupedPattern"), L0,
  Wh(Not(T1({")"})), <<
    A,
    IfE(T0({"|"}), << Wrap("OrPattern", "left"), L0,
                      Wh(Not(T1({"|", ")"})), << A, Call("pattern", D), App >>),
                      P("right"), L1 >>,
        << Call("pattern", D), App >>) >>),
  P("patterns"), AS("rparen", {")"}) >>)

R_pattern == Cat(<<
  IfE(T0({"("}), << Call("gpattern", D) >>, << << <<"exppat">> >>, N("Pattern") >>),
  L0,
  Wh(T1({"?", "+", "*", "{"}), <<
    A,
    IfE(T0({"{"}), << N("PatternQuantifier"),
          If(Not(T1({","})), << A, XNum, Leaf("min", "NumericLiteral") >>),
          Opt({","}, << S("comma"), If(Not(T1({"}"})), << A, XNum, Leaf("max", "NumericLiteral") >>) >>),
          AS("rbrace", {"}"}) >>,
        << N("Symbol") >>),
    App >>),
  P("suffixes") >>)

R_from == Cat(<<
  N("FromStatement"), A, Table, P("expr"),
  IfE(T1({"|>"}), << A, CallI("pipe", D, {"sc"}) >>, << Semi >>) >>)

R_pipe == Cat(<<   \* value stack: left query.  current token: "|>"
  Wrap("PipeStatement", "left"), A,
  Hint(<< "WHERE", "SELECT" >>),
  Sw(<<
    << T0({"EXTEND", "SET", "DROP", "RENAME", "AS", "WHERE", "CALL"}),
       << N("BasePipeOperator"), A, ExsU(TRUE, {";", ")", "|>"}), P("exprs") >> >>,
    << T0({"ORDER"}), << N("BasePipeOperator"), AK("keywords", {"BY"}), A, ExsO(TRUE, {";", ")", "|>"}), P("exprs") >> >>,
    << T0({"SELECT"}), << Call("pselect", D) >> >>,
    << T0({"LIMIT"}), << N("LimitPipeOperator"), A, ExsU(FALSE, {";", "OFFSET"}), P("exprs"),
                         OptKWE("offset", {"OFFSET"}) >> >>,
    << T0({"AGGREGATE"}), << N("AggregatePipeOperator"),
          If(Not(T1({"GROUP"})), << A, ExsO(TRUE, {";", ")", "|>", "GROUP"}), P("exprs") >>),
          Opt({"GROUP"}, << Call("groupby", [D EXCEPT !.al = TRUE, !.ob = TRUE]), P("groupby") >>) >> >>,
    << T0({"UNION", "INTERSECT", "EXCEPT"}), << Call("punion", D) >> >>,
    << T0({"JOIN"}), << Call("pjoin", D) >> >>,
    << T0({"INNER", "FULL", "LEFT", "RIGHT", "CROSS", "OUTER"}),
       << IfE(Or(T1({"JOIN"}), T2({"JOIN"})), << Call("pjoin", D) >>, << Call("punion", D) >>) >> >>,
    << T0({"TABLESAMPLE"}), << N("TableSamplePipeOperator"), AK("keywords", {"SYSTEM"}), A,
                               Sub("group", "sample", D) >> >>,
    << T0({"PIVOT"}), << N("PivotPipeOperator"), AX({"("}), Sub("config", "pivot", D), TrailAlias >> >>,
    << T0({"UNPIVOT"}), << N("UnpivotPipeOperator"),
          Opt({"INCLUDE", "EXCLUDE"}, << KSeq({"NULLS"}), P("keywords") >>),
          AX({"("}), Sub("config", "unpivot", D), TrailAlias >> >>,
    << T0({"WITH"}), << Call("with", D), SetT("WithPipeOperator") >> >>,
    << T0({"MATCH_RECOGNIZE"}), << Call("matchrec", D), SetT("MatchRecognizePipeOperator") >> >>,
    << T0({"DISTINCT"}), << N("Keyword") >> >>
   >>, << Fail(0) >>),
  P("right"),
  IfE(T1({"|>"}), << A, CallI("pipe", D, {"sc"}) >>, << Semi >>) >>)

R_pselect == Cat(<<
  N("SelectPipeOperator"),
  IfE(T1({"ALL", "DISTINCT"}),
      << A, IfE(T1({"AS"}), << N("KeywordSequence"), A, KSeq({"STRUCT", "VALUE"}), P("next_keyword") >>,
                << N("Keyword") >>), P("keywords") >>,
      << Opt({"AS"}, << KSeq({"STRUCT", "VALUE"}), P("keywords") >>) >>),
  A, ExsU(TRUE, {";", ")", "|>", "WINDOW"}), P("exprs"),
  Opt({"WINDOW"}, << Call("window", D), P("window") >>) >>)

R_punion == Cat(<<
  IfE(T0({"INNER", "FULL", "LEFT", "OUTER"}),
      << IfE(T1({"OUTER"}), << KSeq({"OUTER"}) >>, << N("Keyword") >>),
         AX({"UNION", "INTERSECT", "EXCEPT"}), Wrap("UnionPipeOperator", "method") >>,
      << X0({"UNION", "INTERSECT", "EXCEPT"}), N("UnionPipeOperator") >>),
  AK("keywords", {"ALL", "DISTINCT"}),
  IfE(T1({"BY"}), << A, Sub("by", "byname", D) >>,
      << Opt({"STRICT", "CORRESPONDING"}, << Sub("corresponding", "corresponding", D) >>) >>),
  AX({"("}), ExsU(TRUE, {";"}), P("exprs") >>)

R_pjoin == Cat(<<
  IfE(T0({"INNER", "FULL", "LEFT", "RIGHT", "CROSS", "OUTER"}),
      << IfE(T1({"OUTER"}), << KSeq({"OUTER"}) >>, << N("Keyword") >>),
         AX({"JOIN"}), Wrap("JoinPipeOperator", "method") >>,
      << N("JoinPipeOperator") >>),
  A, Call("table", [D EXCEPT !.rt = FALSE]), L1, P("exprs"),
  Call("oncond", D) >>)

------------------------------------------------------------------------------
(* DML *)

R_insert == Cat(<<
  N("InsertStatement"), OptK("into", {"INTO"}),
  If(Not(T1({"(", "VALUES", "ROW"})), << AIdent("target_name") >>),
  If(And(T1({"("}), Not(T2(QueryStart))), << A, GExs(FALSE), P("columns") >>),
  Sw(<<
    << T1({"VALUES"}), << A, N("KeywordWithExprs"), L0,
         X1({"("}),
         Wh(T1({"("}), << A, GExs(FALSE), Comma, App >>), P("exprs"), P("input") >> >>,
    << T1({"ROW"}), << A, K("input") >> >>
   >>, << A, SelE, P("input") >>),
  Semi >>)

R_delete == Cat(<<
  N("DeleteStatement"), OptK("from", {"FROM"}), A, IdentR,
  If(Not(T1({"WHERE"})), << A, If(T0({"AS"}), << K("as"), A >>), XI, Leaf("alias", "Identifier") >>),
  P("table_name"), AX({"WHERE"}), KWE("where"), Semi >>)

R_truncate == Cat(<< N("TruncateStatement"), AK("table", {"TABLE"}), AIdent("table_name"), Semi >>)

R_update == Cat(<<
  N("UpdateStatement"),
  If(Not(T1({"SET"})), << A, Table, P("table_name") >>),
  AX({"SET"}), N("KeywordWithExprs"), A, Exs, P("exprs"), P("set"),
  Opt({"FROM"}, << N("KeywordWithExpr"), A, Table, P("expr"), P("from") >>),
  OptKWE("where", {"WHERE"}), Semi >>)

R_merge == Cat(<<
  N("MergeStatement"), OptK("into", {"INTO"}), A, Table, P("table_name"),
  AX({"USING"}), N("KeywordWithExpr"), A, Table, P("expr"), P("using"),
  AX({"ON"}), KWE("on"), L0,
  Wh(T1({"WHEN"}), <<
    A, N("WhenClause"), OptK("not", {"NOT"}), AK("matched", {"MATCHED"}),
    Opt({"BY"}, << NK("by_target_or_source", << {"BY"}, {"TARGET", "SOURCE"} >>) >>),
    OptKWE("and", {"AND"}),
    AX({"THEN"}), N("KeywordWithStatement"), A,
    Hint(<< "DELETE" >>),
    Sw(<< << T0({"DELETE"}), << N("SingleTokenStatement") >> >>,
          << T0({"UPDATE"}), << Call("update", D) >> >>,
          << T0({"INSERT"}), << Call("insert", D) >> >> >>, << Fail(0) >>),
    P("stmt"), P("then"), App >>),
  P("whens"), Semi >>)

------------------------------------------------------------------------------
(* DDL *)

Gtd(sch, ag) == X0({"("}) \o Call("gtd", [D EXCEPT !.sch = sch, !.ag = ag])
StrCollate   == DefaultCollate(<< StrLeaf >>)
AsStmt(k)    == Cat(<< N("KeywordWithStatement"), A, SelE, P("stmt"), P(k) >>)

R_withconn == Cat(<<
  N("KeywordSequence"), AX({"CONNECTION"}), N("KeywordWithExpr"), A,
  IfE(T0({"DEFAULT"}), << N("Keyword") >>, << IdentR >>), P("expr"), P("next_keyword") >>)

R_withpart == Cat(<<
  N("WithPartitionColumnsClause"), AX({"PARTITION"}),
  NK("partition_columns", << {"PARTITION"}, {"COLUMNS"} >>),
  Opt({"("}, << Gtd(FALSE, FALSE), P("column_schema_group") >>),
  P("with_partition_columns") >>)

R_cschema == Cat(<<
  N("CreateSchemaStatement"), OptK("external", {"EXTERNAL"}), AK("what", {"SCHEMA"}), IfNotExists, AIdent("ident"),
  Opt({"DEFAULT"}, << DefaultCollate(<< Ex >>) >>),
  If(And(T1({"WITH"}), T2({"CONNECTION"})), << A, Sub("with_connection", "withconn", D) >>),
  OptOptions, Semi >>)

R_cindex == Cat(<<
  N("CreateIndexStatement"), OrReplace, AX({"SEARCH", "VECTOR"}), KSeq({"INDEX"}), P("what"), IfNotExists,
  AIdent("ident"), AK("on", {"ON"}), AIdent("tablename"), AX({"("}),
  IfE(T1({"ALL"}), << N("GroupedExpr"), A, KSeq({"COLUMNS"}), P("expr"), AS("rparen", {")"}) >>, << GExs(FALSE) >>),
  P("column_group"),
  OptKWG("storing", {"STORING"}, FALSE),
  Opt({"PARTITION"}, << Call("xxxby", D), P("partitionby") >>),
  OptOptions, Semi >>)

Plain == Not(Or(Has("external"), Has("snapshot")))
R_ctable == Cat(<<
  N("CreateTableStatement"), OrReplace, OptK("temp", {"TEMP", "TEMPORARY"}), OptK("external", {"EXTERNAL"}),
  OptK("snapshot", {"SNAPSHOT"}), AK("what", {"TABLE"}), IfNotExists, AIdent("ident"),
  Opt({"LIKE", "COPY"}, << K("like_or_copy"), AIdent("source_table") >>),
  Opt({"("}, << Gtd(TRUE, FALSE), P("column_schema_group") >>),
  Opt({"DEFAULT"}, << StrCollate >>),
  If(And(T1({"PARTITION"}), Plain), << A, Call("xxxby", D), P("partitionby") >>),
  If(And(T1({"CLUSTER"}), Plain), << A, Call("xxxby", D), P("clusterby") >>),
  If(And(T1({"WITH"}), T2({"CONNECTION"})), << A, Sub("with_connection", "withconn", D) >>),
  If(And(And(T1({"WITH"}), T2({"PARTITION"})), Has("external")), << A, Call("withpart", D) >>),
  Opt({"CLONE"}, << N("KeywordWithExpr"), A, Table, P("expr"), P("clone") >>),
  OptOptions,
  Opt({"AS"}, << AsStmt("as") >>),
  Semi >>)

R_cview == Cat(<<
  N("CreateViewStatement"), OrReplace, OptK("materialized", {"MATERIALIZED"}), AK("what", {"VIEW"}), IfNotExists,
  AIdent("ident"),
  If(And(T1({"("}), Not(Has("materialized"))), <<
    A, N("GroupedIdentWithOptions"), L0, A,
    Wh(Not(T0({")"})), << IdentR, XT({"Identifier"}), SetT("IdentWithOptions"), OptOptions, CommaOr({")"}), App, A >>),
    P("idents"), S("rparen"), P("column_name_list") >>),
  If(And(T1({"PARTITION"}), Has("materialized")), << A, Call("xxxby", D), P("partitionby") >>),
  If(And(T1({"CLUSTER"}), Has("materialized")), << A, Call("xxxby", D), P("clusterby") >>),
  OptOptions,
  Opt({"AS"}, <<
    IfE(T1({"REPLICA"}), << N("KeywordSequence"), A, N("KeywordSequence"), AX({"OF"}), N("KeywordWithExpr"),
                            A, IdentR, P("expr"), P("next_keyword"), P("next_keyword"), P("as") >>,
        << AsStmt("as") >>) >>),
  Semi >>)

R_conn == Cat(<<   \* current token: WITH
  N("KeywordSequence"), AX({"CONNECTION"}), N("KeywordWithExpr"), A, IdentR, P("expr"), P("next_keyword"),
  P("connection") >>)

R_cfunction == Cat(<<
  N("CreateFunctionStatement"), OrReplace, OptK("temp", {"TEMPORARY", "TEMP"}), OptK("table", {"TABLE"}),
  OptK("aggregate", {"AGGREGATE"}), AK("what", {"FUNCTION"}), IfNotExists, AIdent("ident"),
  A, Gtd(FALSE, TRUE), P("group"),
  Opt({"RETURNS"}, << N("KeywordWithType"), A, Sub("type", "type", D), P("returns") >>),
  If(And(Has("table"), T1({"OPTIONS"})), << A, KWG(FALSE), P("options") >>),
  Sw(<<
    << T1({"REMOTE"}), << A, K("remote"), AX({"WITH"}), Call("conn", D), OptOptions >> >>,
    << T1({"AS"}), << A,
         IfE(Has("table"), << AsStmt("as") >>,
             << N("KeywordWithGroupedXXX"), AX({"("}), N("GroupedExpr"), A, Ex, P("expr"), AS("rparen", {")"}),
                P("group"), P("as"), OptOptions >>) >> >>
   >>, <<
     If(T1({"DETERMINISTIC", "NOT"}), << A,
        IfE(T0({"NOT"}), << NK("determinism", << {"NOT"}, {"DETERMINISTIC"} >>) >>,
            << NK("determinism", << {"DETERMINISTIC"} >>) >>) >>),
     AX({"LANGUAGE"}), N("KeywordWithExpr"), A, XW, Leaf("expr", "Identifier"), P("language"),
     Opt({"WITH"}, << Call("conn", D) >>),
     OptOptions,
     AX({"AS"}), KWE("as") >>),
  Semi >>)

R_cprocedure == Cat(<<
  N("CreateProcedureStatement"), OrReplace, AK("what", {"PROCEDURE"}), IfNotExists, AIdent("ident"),
  A, Gtd(TRUE, FALSE), P("group"),
  Opt({"EXTERNAL"}, << N("KeywordSequence"), AX({"SECURITY"}), KSeq({"INVOKER", "DEFINER"}), P("next_keyword"),
                       P("external") >>),
  Opt({"WITH"}, << Sub("with_connection", "withconn", D) >>),
  OptOptions,
  Opt({"LANGUAGE"}, << N("KeywordWithExpr"), A, XW, Leaf("expr", "Identifier"), P("language") >>),
  IfE(T1({"BEGIN"}), << A, Sub("stmt", "begin", D) >>, << If(T1({"AS"}), << A, KWE("as") >>) >>),
  Semi >>)

R_crow == Cat(<<
  N("CreateRowAccessPolicyStatement"), OrReplace, AX({"ROW"}), NK("what", << {"ROW"}, {"ACCESS"}, {"POLICY"} >>),
  IfNotExists, AIdent("ident"),
  AX({"ON"}), N("KeywordWithExpr"), A, IdentR, P("expr"), P("on"),
  Opt({"GRANT"}, << K("grant"), AX({"TO"}), KWG(FALSE), P("to") >>),
  AK("filter", {"FILTER"}), AX({"USING"}), X1({"("}), KWE("using"), Semi >>)

R_cmodel == Cat(<<
  N("CreateModelStatement"), OrReplace, AK("what", {"MODEL"}), IfNotExists, AIdent("ident"),
  OptKWG("transform", {"TRANSFORM"}, TRUE),
  Opt({"INPUT"}, << N("KeywordWithGroupedXXX"), A, Gtd(FALSE, FALSE), P("group"), P("input") >>),
  Opt({"OUTPUT"}, << N("KeywordWithGroupedXXX"), A, Gtd(FALSE, FALSE), P("group"), P("output") >>),
  Opt({"REMOTE"}, << N("KeywordSequence"), AX({"WITH"}), Call("withconn", D), P("next_keyword"), P("remote") >>),
  OptOptions,
  Opt({"AS"}, <<
    IfE(T2({"TRAINING_DATA"}),
        << N("KeywordWithGroupedXXX"), AX({"("}), N("TrainingDataCustomHolidayClause"), AX({"TRAINING_DATA"}),
           Sub("training_data", "cte", D), AX({"CUSTOM_HOLIDAY"}), Sub("custom_holiday", "cte", D),
           AS("rparen", {")"}), P("group"), P("training_data_custom_holiday") >>,
        << AsStmt("query") >>) >>),
  Semi >>)

R_creservation == Cat(<<
  N("CreateReservationStatement"), AK("what", {"CAPACITY", "RESERVATION", "ASSIGNMENT"}), AIdent("ident"),
  IfE(T1({"AS"}), << A, K("as"), AK("json", {"JSON"}), A, Ex, P("json_string") >>, << OptOptions >>),
  Semi >>)

Replica(k) == Cat(<< N("KeywordSequence"), AX({"REPLICA"}), N("KeywordWithExpr"), A, IdentR, P("expr"),
                     P("next_keyword"), P(k) >>)
R_aschema == Cat(<<
  N("AlterSchemaStatement"), AK("what", {"SCHEMA"}), IfExists, AIdent("ident"), A,
  Hint(<< "SET" >>),
  Sw(<<
    << T0({"SET"}), << K("set"), Opt({"DEFAULT"}, << StrCollate >>) >> >>,
    << T0({"ADD"}), << Replica("add") >> >>,
    << T0({"DROP"}), << Replica("drop") >> >> >>, << Fail(0) >>),
  OptOptions, Semi >>)

R_atable == Cat(<<
  N("AlterTableStatement"), AK("what", {"TABLE"}), IfExists, AIdent("ident"),
  << <<"hint1", << "SET" >> >> >>,
  Sw(<<
    << T1({"SET"}), << A, K("set"),
         IfE(T1({"OPTIONS"}), << OptOptions >>, << Opt({"DEFAULT"}, << StrCollate >>) >>) >> >>,
    << T1({"ADD"}), <<
       IfE(T2({"COLUMN"}),
         << L0, Wh(T1({"ADD"}), << A, N("AddColumnClause"), AK("what", {"COLUMN"}), IfNotExists,
                                  A, XW, N("TypeDeclaration"), A, Call("type", [D EXCEPT !.sch = TRUE]), P("type"),
                                  P("type_declaration"), Comma, App >>),
            P("add_columns") >>,
         << L0, Wh(T1({"ADD"}), << A, N("AddConstraintClause"), A, Sub("what", "constraint", D), Comma, App >>),
            P("add_constraints") >>) >> >>,
    << T1({"RENAME"}), <<
       IfE(T2({"TO"}),
         << A, K("rename"), AX({"TO"}), N("KeywordWithExpr"), A, IdentR, P("expr"), P("to") >>,
         << L0, Wh(T1({"RENAME"}), << A, N("RenameColumnClause"), AK("column", {"COLUMN"}),
                      Opt({"IF"}, << KSeq({"EXISTS"}), P("if_exists") >>),
                      AIdent("ident"), AX({"TO"}), N("KeywordWithExpr"), A, IdentR, P("expr"), P("to"), Comma, App >>),
            P("rename_columns") >>) >> >>,
    << T1({"DROP"}), <<
       L0, Wh(T1({"DROP"}), << A, N("AlterTableDropClause"),
              IfE(T1({"PRIMARY"}),
                  << A, N("KeywordWithExpr"), AX({"KEY"}), Leaf("expr", "Keyword"), P("what"), IfExists >>,
                  << AK("what", {"COLUMN", "CONSTRAINT"}), IfExists, AIdent("ident") >>),
              Comma, App >>),
       P("drop_columns") >> >>,
    << T1({"ALTER"}), << A, Sub("alter_column_stmt", "acolumn", D) >> >>
   >>, << Fail(1) >>),
  Semi >>)

R_acolumn == Cat(<<
  If(EnvC("sc"), << Bad >>),     \* only within ALTER TABLE and ALTER VIEW
  N("AlterColumnStatement"), AK("what", {"COLUMN"}), IfExists, A, XW, Leaf("ident", "Identifier"), A,
  Hint(<< "SET" >>),
  Sw(<<
    << T0({"SET"}), << K("set"),
         Sw(<< << T1({"OPTIONS"}), << OptOptions >> >>,
               << T1({"DATA"}), << A, NK("data_type", << {"DATA"}, {"TYPE"} >>), A, Sub("type", "type", D) >> >> >>,
            << AX({"DEFAULT"}), KWE("default") >>) >> >>,
    << T0({"DROP"}), <<
         IfE(T1({"DEFAULT"}), << NK("drop_default", << {"DROP"}, {"DEFAULT"} >>) >>,
             << NK("drop_not_null", << {"DROP"}, {"NOT"}, {"NULL"} >>) >>) >> >>
   >>, << Fail(0) >>),
  Semi >>)

SetOptions == Cat(<< AK("set", {"SET"}), AX({"OPTIONS"}), KWG(FALSE), P("options"), Semi >>)

R_avector == Cat(<<
  N("AlterVectorIndexStatement"), AX({"VECTOR"}), KSeq({"INDEX"}), P("what"), IfExists, AIdent("ident"),
  AX({"ON"}), N("KeywordWithExpr"), A, IdentR, P("expr"), P("on"), AK("operation", {"REBUILD"}), Semi >>)

R_aview == Cat(<<
  N("AlterViewStatement"), OptK("materialized", {"MATERIALIZED"}), AK("what", {"VIEW"}), IfExists, AIdent("ident"),
  IfE(T1({"ALTER"}), << A, Sub("alter_column_stmt", "acolumn", D), Semi >>, << SetOptions >>) >>)

R_aorg     == Cat(<< N("AlterOrganizationStatement"), AK("what", {"ORGANIZATION"}), SetOptions >>)
R_aproject == Cat(<< N("AlterProjectStatement"), AK("what", {"PROJECT"}),
                     If(Not(T1({"SET"})), << AIdent("ident") >>), SetOptions >>)
R_abi      == Cat(<< N("AlterBICapacityStatement"), AK("what", {"BI_CAPACITY"}), AIdent("ident"), SetOptions >>)
R_areserv  == Cat(<< N("AlterReservationStatement"), AK("what", {"CAPACITY", "RESERVATION"}), AIdent("ident"),
                     SetOptions >>)
R_amodel   == Cat(<< N("AlterModelStatement"), AK("what", {"MODEL"}), IfExists, AIdent("ident"), SetOptions >>)

R_droprow == Cat(<<
  N("DropRowAccessPolicyStatement"), A,
  IfE(T0({"ROW"}), << NK("what", << {"ROW"}, {"ACCESS"}, {"POLICY"} >>) >>,
      << NK("what", << {"ALL"}, {"ROW"}, {"ACCESS"}, {"POLICIES"} >>) >>),
  IfExists,
  If(Not(T1({"ON"})), << AIdent("ident") >>),
  AX({"ON"}), N("KeywordWithExpr"), A, IdentR, P("expr"), P("on"), Semi >>)

DropWhat == {"SCHEMA", "TABLE", "VIEW", "FUNCTION", "PROCEDURE", "MODEL", "CAPACITY", "RESERVATION", "ASSIGNMENT"}
R_drop == Cat(<<
  N("DropStatement"),
  Sw(<< << T1({"EXTERNAL"}), << A, K("external") >> >>,
        << T1({"MATERIALIZED"}), << A, K("materialized") >> >>,
        << T1({"SNAPSHOT"}), << A, K("snapshot") >> >>,
        << And(T1({"TABLE"}), T2({"FUNCTION"})), << A, K("table") >> >> >>, <<>>),
  A,
  IfE(T0({"SEARCH", "VECTOR"}), << KSeq({"INDEX"}), P("what") >>, << X0(DropWhat), K("what") >>),
  IfExists, AIdent("ident"), OptK("cascade_or_restrict", {"CASCADE", "RESTRICT"}),
  Opt({"ON"}, << N("KeywordWithExpr"), A, IdentR, P("expr"), P("on") >>),
  Semi >>)

R_undrop == Cat(<< N("UndropStatement"), AK("what", {"SCHEMA"}), IfNotExists, AIdent("ident"), Semi >>)

------------------------------------------------------------------------------
(* DCL *)

GrantTail(k, W) == Cat(<< A, Exs, P("roles"), AK("on", {"ON"}), A,
                          IfE(T0({"EXTERNAL"}), << KSeq({"TABLE"}), P("resource_type") >>, << XW, K("resource_type") >>), AIdent("ident"), AX(W),
                          N("KeywordWithExprs"), A, Exs, P("exprs"), P(k), Semi >>)
R_grant  == Cat(<< N("GrantStatement"), GrantTail("to", {"TO"}) >>)
R_revoke == Cat(<< N("RevokeStatement"), GrantTail("from", {"FROM"}) >>)

------------------------------------------------------------------------------
(* scripting *)

StmtT == Call("statement", [D EXCEPT !.sc = TRUE])
(* statements up to (excluding) a token in W; value stack: list *)
Stmts(W) == Wh(Not(T1(W)), << A, StmtT, << <<"expsemi">> >>, App >>)
R_kwstmts == Cat(<< N("KeywordWithStatements"), L0, Wh(Not(<<"until">>), << A, StmtT, << <<"expsemi">> >>, App >>),
                    P("stmts") >>)
KWS(W) == Call("kwstmts", [D EXCEPT !.u = W])

(* names separated by commas; value stack on exit: list *)
R_names == Cat(<<
  A, IfE(T1({","}), << IdentR, X1({","}), A, S("comma") >>, << IdentR >>), L1,
  Wh(<<"lastcomma">>, << A, IfE(T1({","}), << IdentR, X1({","}), A, S("comma") >>, << IdentR >>), App >>) >>)

R_declare == Cat(<<
  N("DeclareStatement"), Call("names", D), P("idents"),
  If(Not(T1({"DEFAULT"})), << A, Sub("variable_type", "type", D) >>),
  OptKWE("default", {"DEFAULT"}), Semi >>)

R_set == Cat(<< N("SetStatement"), A, Ex, P("expr"), Semi >>)

R_execute == Cat(<<
  N("ExecuteStatement"), AK("immediate", {"IMMEDIATE"}), A, Ex, P("sql_expr"),
  Opt({"INTO"}, << N("KeywordWithExprs"), Call("names", D), P("exprs"), P("into") >>),
  Opt({"USING"}, << N("KeywordWithExprs"), A, ExsA, P("exprs"), P("using") >>),
  Semi >>)

R_begin == Cat(<<
  N("BeginStatement"), L0, Stmts({"END", "EXCEPTION"}),
  IfE(<<"nil">>, << Drop >>, << P("stmts") >>),
  Opt({"EXCEPTION"}, << NK("exception_when_error", << {"EXCEPTION"}, {"WHEN"}, {"ERROR"} >>), AX({"THEN"}),
                        KWS({"END"}), P("then") >>),
  AK("end", {"END"}), Semi >>)

R_if == Cat(<<
  N("IfStatement"), A, Ex, P("condition"), AX({"THEN"}), KWS({"ELSEIF", "ELSE", "END"}), P("then"),
  L0,
  Wh(T1({"ELSEIF"}), << A, N("ElseIfClause"), A, Ex, P("condition"), AX({"THEN"}), KWS({"ELSEIF", "ELSE", "END"}),
                        P("then"), App >>),
  IfE(<<"nil">>, << Drop >>, << P("elseifs") >>),
  Opt({"ELSE"}, << KWS({"END"}), P("else") >>),
  AX({"END"}), NK("end_if", << {"END"}, {"IF"} >>), Semi >>)

R_labeled == Cat(<<
  XI, N("Identifier"), AX({":"}), N("Symbol"), A, << <<"exploop">> >>,
  Call("statement", D), XT({"BeginStatement", "LoopStatement", "WhileStatement", "ForStatement", "RepeatStatement"}),
  If(Or(Has("leading_label"), Has("colon")), << Fail(0) >>),
  Swap, P("colon"), Swap, P("leading_label"),
  If(And(Not(T1({";"})), Not(Eof(1))), << A, XI, Leaf("trailing_label", "Identifier") >>),
  Semi >>)

R_breakc == Cat(<< N("BreakContinueStatement"), If(And(Not(T1({";"})), Not(Eof(1))), << A, XI, Leaf("label", "Identifier") >>), Semi >>)

R_loop == Cat(<< KWS({"END"}), SetT("LoopStatement"), AX({"END"}), NK("end_loop", << {"END"}, {"LOOP"} >>), Semi >>)

R_repeat == Cat(<< KWS({"UNTIL"}), SetT("RepeatStatement"), AX({"UNTIL"}), KWE("until"), AX({"END"}),
                   NK("end_repeat", << {"END"}, {"REPEAT"} >>), Semi >>)

R_while == Cat(<< N("WhileStatement"), A, Ex, P("condition"), AX({"DO"}), KWS({"END"}), P("do"), AX({"END"}),
                  NK("end_while", << {"END"}, {"WHILE"} >>), Semi >>)

R_single == Cat(<< N("SingleTokenStatement"), Semi >>)

R_for == Cat(<< N("ForStatement"), A, XI, Leaf("ident", "Identifier"), AX({"IN"}), N("KeywordWithGroupedXXX"),
                AX({"("}), SelE, P("group"), P("in"), AX({"DO"}), KWS({"END"}), P("do"), AX({"END"}),
                NK("end_for", << {"END"}, {"FOR"} >>), Semi >>)

R_transaction == Cat(<< N("TransactionStatement"), OptK("transaction", {"TRANSACTION"}), Semi >>)

R_raise == Cat(<< N("RaiseStatement"), OptKWE("using", {"USING"}), Semi >>)

R_case == Cat(<<
  N("CaseStatement"), If(Not(T1({"WHEN"})), << A, Ex, P("expr") >>), X1({"WHEN"}), L0,
  Wh(T1({"WHEN"}), << A, N("CaseStatementArm"), A, Ex, P("expr"), AK("then", {"THEN"}), L0,
                      Stmts({"WHEN", "ELSE", "END"}), P("stmts"), App >>),
  Opt({"ELSE"}, << N("CaseStatementArm"), L0, Stmts({"END"}), P("stmts"), App >>),
  P("arms"), AX({"END"}), NK("end_case", << {"END"}, {"CASE"} >>), Semi >>)

R_callst == Cat(<< N("CallStatement"), A, HintN({"(", "."}), ExT, XT({"CallingFunction"}), P("procedure"), Semi >>)

R_assert == Cat(<< N("AssertStatement"), A, Ex, P("expr"), Opt({"AS"}, << K("as"), A, Ex, P("description") >>), Semi >>)

R_exportdata == Cat(<<
  N("ExportDataStatement"), AK("data", {"DATA"}), Opt({"WITH"}, << Sub("with_connection", "withconn", D) >>),
  AX({"OPTIONS"}), KWG(FALSE), P("options"), AX({"AS"}), N("KeywordWithStatement"), A, X0(QueryStart),
  Call("statement", D), P("stmt"), P("as"), Semi >>)

R_exportmodel == Cat(<< N("ExportModelStatement"), AK("what", {"MODEL"}), AIdent("ident"), OptOptions, Semi >>)

R_load == Cat(<<
  N("LoadStatement"), AK("data", {"DATA"}), AK("into", {"INTO", "OVERWRITE"}), AIdent("ident"),
  Opt({"OVERWRITE", "PARTITIONS"}, <<
    IfE(T0({"OVERWRITE"}), << N("Keyword"), AX({"PARTITIONS"}), Wrap("OverwritePartitionsClause", "overwrite") >>,
        << N("OverwritePartitionsClause") >>),
    AX({"("}), ExP(101), P("grouped_expr"), P("overwrite_partitions") >>),
  Opt({"("}, << Gtd(FALSE, FALSE), P("column_group") >>),
  Opt({"PARTITION"}, << Call("xxxby", D), P("partitionby") >>),
  Opt({"CLUSTER"}, << Call("xxxby", D), P("clusterby") >>),
  OptOptions,
  AK("from", {"FROM"}), AK("files", {"FILES"}), A, GExs(FALSE), P("from_files"),
  If(And(T1({"WITH"}), T2({"PARTITION"})), << A, Call("withpart", D) >>),
  If(And(T1({"WITH"}), T2({"CONNECTION"})), << A, K("with"), AK("connection", {"CONNECTION"}), AIdent("connection_name") >>),
  Semi >>)

------------------------------------------------------------------------------
(* statement dispatch *)

G(r) == << CallI(r, D, {"sc"}) >>

CreateKinds == <<
  << {"SCHEMA"}, "cschema" >>, << {"TABLE"}, "ctable" >>, << {"VIEW"}, "cview" >>, << {"FUNCTION"}, "cfunction" >>,
  << {"PROCEDURE"}, "cprocedure" >>, << {"ROW"}, "crow" >>,
  << {"CAPACITY", "RESERVATION", "ASSIGNMENT"}, "creservation" >>, << {"SEARCH", "VECTOR"}, "cindex" >>,
  << {"MODEL"}, "cmodel" >> >>
AlterKinds == <<
  << {"SCHEMA"}, "aschema" >>, << {"TABLE"}, "atable" >>, << {"COLUMN"}, "acolumn" >>, << {"VIEW"}, "aview" >>,
  << {"VECTOR"}, "avector" >>, << {"ORGANIZATION"}, "aorg" >>, << {"PROJECT"}, "aproject" >>,
  << {"BI_CAPACITY"}, "abi" >>, << {"CAPACITY", "RESERVATION"}, "areserv" >>, << {"MODEL"}, "amodel" >> >>

R_statement == Cat(<<
  Hint(<< "SELECT", "SET", "BEGIN" >>),
  Sw(<<
  << T0(QueryStart), G("select") >>,
  << T0({"INSERT"}), G("insert") >>,
  << T0({"DELETE"}), G("delete") >>,
  << T0({"TRUNCATE"}), G("truncate") >>,
  << T0({"UPDATE"}), G("update") >>,
  << T0({"MERGE"}), G("merge") >>,
  << T0({"CREATE"}), << Scan(CreateKinds) >> >>,
  << T0({"ALTER"}), << Scan(AlterKinds) >> >>,
  << T0({"DROP"}), << IfE(T1({"ALL", "ROW"}), G("droprow"), G("drop")) >> >>,
  << T0({"UNDROP"}), G("undrop") >>,
  << T0({"GRANT"}), G("grant") >>,
  << T0({"REVOKE"}), G("revoke") >>,
  << T0({"DECLARE"}), G("declare") >>,
  << T0({"SET"}), G("set") >>,
  << T0({"EXECUTE"}), G("execute") >>,
  << T0({"IF"}), G("if") >>,
  << T0({"BEGIN"}), << IfE(Or(T1({"TRANSACTION", ";"}), Eof(1)), G("transaction"), G("begin")) >> >>,
  << T0({"CASE"}), G("case") >>,
  << T0({"LOAD"}), G("load") >>,
  << T0({"LOOP"}), G("loop") >>,
  << T0({"REPEAT"}), G("repeat") >>,
  << T0({"WHILE"}), G("while") >>,
  << T0({"BREAK", "LEAVE", "CONTINUE", "ITERATE"}), G("breakc") >>,
  << T0({"FOR"}), G("for") >>,
  << T0({"COMMIT", "ROLLBACK"}), G("transaction") >>,
  << T0({"RAISE"}), G("raise") >>,
  << T0({"RETURN"}), G("single") >>,
  << T0({"CALL"}), G("callst") >>,
  << T0({"ASSERT"}), G("assert") >>,
  << T0({"EXPORT"}), << IfE(T1({"DATA"}), G("exportdata"), G("exportmodel")) >> >>
  >>, G("labeled")) >>)

(* a script: statements, then the end-of-file node *)
R_script == Cat(<< L0, Wh(Not(Eof(0)), << StmtT, << <<"expend">> >>, App, A >>), N("EOF"), App >>)

Rules == [
  prefix |-> R_prefix, array |-> R_array, call |-> R_call, dot |-> R_dot, binary |-> R_binary,
  isdistinct |-> R_isdistinct, between |-> R_between, in |-> R_in, expr |-> R_expr, exprs |-> R_exprs,
  gexprs |-> R_gexprs, ident1 |-> R_ident1, ident2 |-> R_ident2, identifier |-> R_identifier,
  enforced |-> R_enforced, constraint |-> R_constraint, gtd |-> R_gtd, type |-> R_type,
  cte |-> R_cte, with |-> R_with, limit |-> R_limit, xxxby |-> R_xxxby, groupby |-> R_groupby,
  winexpr |-> R_winexpr, bound |-> R_bound, window |-> R_window, setop |-> R_setop, byname |-> R_byname,
  corresponding |-> R_corresponding, corr1 |-> R_corr1, select |-> R_select, gtable |-> R_gtable,
  sample |-> R_sample, table |-> R_table, oncond |-> R_oncond, pivot |-> R_pivot, unpivot |-> R_unpivot,
  unpitem |-> R_unpitem, matchrec |-> R_matchrec, matchcfg |-> R_matchcfg, gpattern |-> R_gpattern,
  pattern |-> R_pattern, from |-> R_from, pipe |-> R_pipe, pselect |-> R_pselect, punion |-> R_punion,
  pjoin |-> R_pjoin, insert |-> R_insert, delete |-> R_delete, truncate |-> R_truncate, update |-> R_update,
  merge |-> R_merge, withconn |-> R_withconn, withpart |-> R_withpart, cschema |-> R_cschema,
  cindex |-> R_cindex, ctable |-> R_ctable, cview |-> R_cview, conn |-> R_conn, cfunction |-> R_cfunction,
  cprocedure |-> R_cprocedure, crow |-> R_crow, cmodel |-> R_cmodel, creservation |-> R_creservation,
  aschema |-> R_aschema, atable |-> R_atable, acolumn |-> R_acolumn, avector |-> R_avector, aview |-> R_aview,
  aorg |-> R_aorg, aproject |-> R_aproject, abi |-> R_abi, areserv |-> R_areserv, amodel |-> R_amodel,
  droprow |-> R_droprow, drop |-> R_drop, undrop |-> R_undrop, grant |-> R_grant, revoke |-> R_revoke,
  kwstmts |-> R_kwstmts, names |-> R_names, declare |-> R_declare, set |-> R_set, execute |-> R_execute,
  begin |-> R_begin, if |-> R_if, labeled |-> R_labeled, breakc |-> R_breakc, loop |-> R_loop,
  repeat |-> R_repeat, while |-> R_while, single |-> R_single, for |-> R_for, transaction |-> R_transaction,
  raise |-> R_raise, case |-> R_case, callst |-> R_callst, assert |-> R_assert, exportdata |-> R_exportdata,
  exportmodel |-> R_exportmodel, load |-> R_load, statement |-> R_statement, script |-> R_script ]
=============================================================================
