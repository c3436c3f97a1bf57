-------------------------------- MODULE Tree --------------------------------
(***************************************************************************)
(* From a source text to what the library must return for it: Lexer, then  *)
(* comment attachment, then Machine.                                       *)
(***************************************************************************)
EXTENDS Lexer, Machine

(* tokens without comments *)
Code(toks) == SelectSeq(toks, LAMBDA t : t.d # "cmt")

(* Comments.  Those that follow a token directly and start on the line on   *)
(* which the token starts trail it; all others lead the next token.         *)
(* Att(toks)[i] = [lead, trail] for the i-th token that is not a comment.   *)
AttStep(x, t) ==          \* x: [acc, open, lead]; open: a trailing run is still possible after the last token of acc
  IF t.d # "cmt"
  THEN [acc |-> Append(x.acc, [lead |-> x.lead, trail |-> <<>>, l |-> t.l]), open |-> TRUE, lead |-> <<>>]
  ELSE IF x.open /\ Len(x.acc) > 0 /\ x.acc[Len(x.acc)].l = t.l
  THEN [x EXCEPT !.acc[Len(x.acc)].trail = Append(@, t)]
  ELSE [x EXCEPT !.open = FALSE, !.lead = Append(@, t)]
Att(toks) == FoldLeft(AttStep, [acc |-> <<>>, open |-> FALSE, lead |-> <<>>], toks).acc

(* the tree as the library shows it; k = <<line, column, text>> or <<>> *)
Key(t)       == <<t.l, t.c, t.s>>
ComNode(t)   == [t |-> "Comment", k |-> Key(t), c |-> EmptyC]
ComList(ts)  == [l |-> [j \in DOMAIN ts |-> ComNode(ts[j])]]
RECURSIVE Out(_, _, _)
Out(T, at, n) ==
  LET i  == IF n.k < 0 THEN 0 - n.k ELSE n.k
      c1 == [x \in DOMAIN n.c |-> IF "l" \in DOMAIN n.c[x]
                                  THEN [l |-> [j \in DOMAIN n.c[x].l |-> Out(T, at, n.c[x].l[j])]]
                                  ELSE Out(T, at, n.c[x])]
      c2 == IF i # 0 /\ Len(at[i].lead) > 0 THEN ("leading_comments" :> ComList(at[i].lead)) @@ c1 ELSE c1
      c3 == IF i # 0 /\ Len(at[i].trail) > 0 THEN ("trailing_comments" :> ComList(at[i].trail)) @@ c2 ELSE c2
  IN  [t |-> n.t, k |-> IF n.k <= 0 THEN <<>> ELSE Key(T[i]), c |-> c3]
Forest(T, at, m) == [j \in DOMAIN m.stk[1].l |-> Out(T, at, m.stk[1].l[j])]
=============================================================================
