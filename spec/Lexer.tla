------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* Lexical structure of a BigQuery script.                                 *)
(*                                                                         *)
(* A source text is a sequence of symbols, one per Unicode code point: a   *)
(* printable ASCII character (or \n, \t, \r) stands for itself, any other  *)
(* code point is written "<U+hex>".                                        *)
(*                                                                         *)
(* The lexer is a state machine over [i, toks, depth]; LexStep is its only *)
(* transition (recognise one token).  LineOf and ColOf define positions    *)
(* from the source alone; the machine carries <<line, index of the last    *)
(* newline>> of index i along (p), which LexMC checks to come to the same. *)
(*                                                                         *)
(* Token: l line, c column, s text, u text in upper case (words, symbols), *)
(*        w width in code points, d kind, g well-formed numeric literal,   *)
(*        x the text ends with a dot, b begin index, e index after the last symbol.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

EOFPOS == 2147483647      \* stands for the implementation's "end of input" position

Digits  == {"0","1","2","3","4","5","6","7","8","9"}
Lower   == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
Upper   == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
AsciiLetters == Range(Lower) \cup Range(Upper)
(* code points outside ASCII that the checks use, by Unicode class *)
UniLetters == {"<U+00E9>","<U+00C9>","<U+4E2D>","<U+6587>","<U+0416>","<U+03B1>","<U+20000>","<U+00AA>"}
UniSpaces  == {"<U+00A0>","<U+3000>","<U+2028>","<U+2003>","<U+000B>","<U+000C>","<U+0085>"}
Spaces     == {" ", "\n", "\t", "\r"} \cup UniSpaces
IdStart    == AsciiLetters \cup UniLetters \cup {"_"}
IdCont     == IdStart \cup Digits
AsciiId    == AsciiLetters \cup Digits \cup {"_"}

UpMap == [c \in Range(Lower) |-> Upper[CHOOSE i \in 1..26 : Lower[i] = c]]
Up(c) == IF c \in DOMAIN UpMap THEN UpMap[c] ELSE c

(* the text of src[i..j-1] *)
Text(src, i, j)  == FoldLeft(LAMBDA a, c : a \o c, "", SubSeq(src, i, j - 1))
UText(src, i, j) == FoldLeft(LAMBDA a, c : a \o Up(c), "", SubSeq(src, i, j - 1))

At(src, i, c)   == i <= Len(src) /\ src[i] = c
In(src, i, C)   == i <= Len(src) /\ src[i] \in C
(* first index >= i whose symbol is outside C *)
RECURSIVE Skip(_, _, _)
Skip(src, i, C) == IF In(src, i, C) THEN Skip(src, i + 1, C) ELSE i
(* first index >= i holding c; 0 if none *)
RECURSIVE Find(_, _, _)
Find(src, i, c) == IF i > Len(src) THEN 0 ELSE IF src[i] = c THEN i ELSE Find(src, i + 1, c)
(* last index in i..j-1 that is not a space, plus one (end of a comment once trailing blanks are dropped) *)
RECURSIVE TrimEnd(_, _, _)
TrimEnd(src, i, j) == IF j > i /\ src[j - 1] \in Spaces THEN TrimEnd(src, i, j - 1) ELSE j

LineOf(src, i) == 1 + Cardinality({k \in 1..(i - 1) : src[k] = "\n"})
ColOf(src, i)  == i - Max({0} \cup {k \in 1..(i - 1) : src[k] = "\n"})
(* from p at index i to index j *)
Along(src, p, i, j) == LET nl == {k \in i..(j - 1) : src[k] = "\n"} IN
                       IF nl = {} THEN p ELSE <<p[1] + Cardinality(nl), Max(nl)>>

(* end index (exclusive) of each kind of token starting at i; 0: the input ends first *)
LineCommentStop(src, i) == LET k == Find(src, i, "\n") IN IF k = 0 THEN Len(src) + 1 ELSE k
RECURSIVE BlockEnd(_, _)
BlockEnd(src, k) == IF k + 1 > Len(src) THEN 0
                    ELSE IF src[k] = "*" /\ src[k + 1] = "/" THEN k + 2 ELSE BlockEnd(src, k + 1)
BacktickEnd(src, i) == LET k == Find(src, i + 1, "`") IN IF k = 0 THEN 0 ELSE k + 1
(* n quotes q close the string; a backslash protects the next symbol *)
RECURSIVE QuoteEnd(_, _, _, _)
QuoteEnd(src, k, q, n) ==
  IF k > Len(src) THEN 0
  ELSE IF \A m \in 0..(n - 1) : At(src, k + m, q) THEN k + n
  ELSE IF src[k] = "\\" THEN QuoteEnd(src, k + 2, q, n)
  ELSE QuoteEnd(src, k + 1, q, n)
HexDigits == Digits \cup {"a","b","c","d","e","f","A","B","C","D","E","F"}
IsHex(src, i) == At(src, i, "0") /\ In(src, i + 1, {"x", "X"}) /\ In(src, i + 2, HexDigits)
NumberEnd(src, i) ==
  IF IsHex(src, i) THEN Skip(src, i + 2, HexDigits) ELSE
  LET a == Skip(src, i, Digits)
      b == IF At(src, a, ".") THEN Skip(src, a + 1, Digits) ELSE a
      c == IF In(src, b, {"e", "E"})
           THEN Skip(src, IF In(src, b + 1, {"+", "-"}) THEN b + 2 ELSE b + 1, Digits) ELSE b
  IN  c
(* digits before or after the point, and after an exponent, are mandatory in a numeric literal *)
NumberOk(src, i) ==
  IsHex(src, i) \/
  LET a == Skip(src, i, Digits)
      b == IF At(src, a, ".") THEN Skip(src, a + 1, Digits) ELSE a
      k == IF In(src, b + 1, {"+", "-"}) THEN b + 2 ELSE b + 1
  IN  (a > i \/ b > a + 1) /\ (In(src, b, {"e", "E"}) => In(src, k, Digits))
RECURSIVE BraceEnd(_, _, _)
BraceEnd(src, k, n) == IF k + n - 1 > Len(src) THEN 0
                       ELSE IF \A m \in 0..(n - 1) : src[k + m] = "}" THEN k + n ELSE BraceEnd(src, k + 1, n)

(* What starts at i: kind d and end index e (0 when the input ends inside the   *)
(* token), or kind "bad" with the index of the offending position.             *)
Two(src, i) == IF i < Len(src) THEN src[i] \o src[i + 1] ELSE ""
Recognise(src, i, depth) ==
  LET ch == src[i]  two == Two(src, i)  nx == IF i < Len(src) THEN src[i + 1] ELSE ""
  IN
  CASE ch = "#" \/ two = "--"    -> [d |-> "cmt", e |-> TrimEnd(src, i, LineCommentStop(src, i))]
    [] two = "/*"                -> [d |-> "cmt", e |-> BlockEnd(src, i + 2)]
    [] ch = "`"                  -> [d |-> "bq", e |-> BacktickEnd(src, i)]
    [] ch \in {"'", "\""}        -> IF nx = ch /\ At(src, i + 2, ch)
                                    THEN [d |-> "str", e |-> QuoteEnd(src, i + 3, ch, 3)]
                                    ELSE [d |-> "str", e |-> QuoteEnd(src, i + 1, ch, 1)]
    [] ch \in Digits \/ (ch = "." /\ nx \in Digits) -> [d |-> "num", e |-> NumberEnd(src, i)]
    [] ch \in IdStart            -> [d |-> "word", e |-> Skip(src, i, IdCont)]
    [] ch = "@"                  -> LET k == Skip(src, i, {"@"}) IN
                                    IF At(src, k, "`") THEN [d |-> "param", e |-> BacktickEnd(src, k)]
                                    ELSE IF In(src, k, IdStart) THEN [d |-> "param", e |-> Skip(src, k, IdCont)]
                                    ELSE [d |-> "bad", e |-> k]
    [] ch = "?"                  -> [d |-> "param", e |-> i + 1]
    [] ch = "{"                  -> LET k == Skip(src, i, {"{"})  n == k - i IN
                                    IF n = 1 /\ In(src, k, Digits \cup {"@", ","})
                                    THEN [d |-> "tmpl", e |-> i + 1]
                                    ELSE [d |-> "tmpl", e |-> BraceEnd(src, k + 1, n)]
    [] ch = ">" /\ depth > 0     -> [d |-> "sym", e |-> i + 1]
    [] two \in {"||", "|>", "<<", "<=", "<>", ">>", ">=", "=>", "!="} -> [d |-> "sym", e |-> i + 2]
    [] OTHER                     -> [d |-> "sym", e |-> i + 1]

(* inside a type declaration, every ">" closes one level *)
TypeWords == {"ARRAY", "STRUCT", "RANGE"}
RECURSIVE LastCode(_, _)
LastCode(toks, k) == IF k = 0 \/ toks[k].d # "cmt" THEN k ELSE LastCode(toks, k - 1)
(* after a dot the word is the name of a field *)
OpensType(toks) == LET k == LastCode(toks, Len(toks)) IN
  k > 0 /\ toks[k].u \in TypeWords /\ LET j == LastCode(toks, k - 1) IN ~(j > 0 /\ toks[j].u = ".")
Depth(depth, u, toks) ==
  IF u = "<" /\ OpensType(toks) THEN depth + 1
  ELSE IF u = ">" /\ depth > 0 THEN depth - 1 ELSE depth

LexInit == [i |-> 1, toks |-> <<>>, depth |-> 0, st |-> "run", el |-> 0, ec |-> 0, p |-> <<1, 0>>]
EofTok == [l |-> EOFPOS, c |-> EOFPOS, s |-> "", u |-> "", w |-> 0, d |-> "eof", g |-> FALSE, x |-> FALSE, b |-> 0, e |-> 0]

LexStep(src, x) ==
  LET i == Skip(src, x.i, Spaces) IN
  IF i > Len(src) THEN [x EXCEPT !.i = i, !.st = "done", !.toks = Append(@, EofTok)]
  ELSE
  LET r   == Recognise(src, i, x.depth)
      bad == IF r.d = "bad" THEN r.e ELSE IF r.e = 0 THEN Len(src) + 1 ELSE 0
      p   == Along(src, x.p, x.i, i)
  IN
  IF bad # 0 THEN LET q == Along(src, p, i, bad) IN [x EXCEPT !.st = "err", !.el = q[1], !.ec = bad - q[2]]
  ELSE LET u == IF r.d \in {"word", "sym", "param", "tmpl"} THEN UText(src, i, r.e) ELSE ""
           t == [l |-> p[1], c |-> i - p[2], s |-> Text(src, i, r.e), u |-> u, w |-> r.e - i,
                 d |-> IF r.d = "word" /\ \E k \in i..(r.e - 1) : src[k] \notin AsciiId THEN "uword" ELSE r.d,
                 g |-> r.d = "num" /\ NumberOk(src, i), x |-> src[r.e - 1] = ".", b |-> i, e |-> r.e]
       IN [x EXCEPT !.i = r.e, !.p = Along(src, p, i, r.e), !.toks = Append(@, t), !.depth = Depth(x.depth, u, x.toks)]

(* (in batches: see Machine) *)
LexTicks == [j \in 1..24 |-> j]
LexBatch(src, x) == FoldLeft(LAMBDA a, j : IF a.st = "run" THEN LexStep(src, a) ELSE a, x, LexTicks)
RECURSIVE LexRun(_, _)
LexRun(src, x) == IF x.st = "run" THEN LexRun(src, FoldLeft(LAMBDA a, j : IF a.st = "run" THEN LexBatch(src, a) ELSE a, x, LexTicks)) ELSE x
Lex(src) == LexRun(src, LexInit)
=============================================================================
