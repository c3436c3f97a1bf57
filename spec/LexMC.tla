------------------------------- MODULE LexMC --------------------------------
(***************************************************************************)
(* The lexer run on every text of at most MaxLen words of an alphabet.     *)
(* The alphabet (a JSON file) is a list of words, a word being a list of   *)
(* symbols.                                                                *)
(***************************************************************************)
EXTENDS Lexer, Json, IOUtils
VARIABLES src, x, n
Alpha  == JsonDeserialize(IOEnv.ALPHA)
MaxLen == atoi(IOEnv.MAXLEN)
Part   == atoi(IOEnv.GPART)      \* only texts whose first word is congruent to Part modulo Parts
Parts  == atoi(IOEnv.GPARTS)

Init == src = <<>> /\ n = 0 /\ x = [st |-> "write"]
Write == /\ x.st = "write" /\ n < MaxLen
         /\ \E k \in DOMAIN Alpha : (n = 0 => k % Parts = Part) /\ src' = src \o Alpha[k]
         /\ n' = n + 1 /\ UNCHANGED x
Start == x.st = "write" /\ x' = LexInit /\ UNCHANGED <<src, n>>
Read  == x.st = "run" /\ x' = LexStep(src, x) /\ UNCHANGED <<src, n>>
Next  == Write \/ Start \/ Read
Spec  == Init /\ [][Next]_<<src, x, n>>

Reading == x.st \in {"run", "done", "err"}
Toks    == SelectSeq(x.toks, LAMBDA t : t.d # "eof")
Blank(i, j) == \A k \in i..(j - 1) : src[k] \in Spaces

(* every token is the text found at its position; nothing but white space lies between tokens *)
PartitionInv == Reading => \A j \in DOMAIN Toks : LET t == Toks[j] IN
                  /\ t.b < t.e /\ t.e <= Len(src) + 1 /\ t.w = t.e - t.b
                  /\ t.s = Text(src, t.b, t.e)
                  /\ t.l = LineOf(src, t.b) /\ t.c = ColOf(src, t.b)
                  /\ src[t.b] \notin Spaces
                  /\ Blank(IF j = 1 THEN 1 ELSE Toks[j - 1].e, t.b)
                  /\ j > 1 => Toks[j - 1].e <= t.b
(* at the end the whole text is accounted for, and there is exactly one end marker *)
CoverInv == Reading /\ x.st = "done" =>
              /\ x.toks[Len(x.toks)] = EofTok /\ Len(Toks) = Len(x.toks) - 1
              /\ Blank(IF Len(Toks) = 0 THEN 1 ELSE Toks[Len(Toks)].e, Len(src) + 1)
(* an error is reported at a position of the text, or right after it; what was read before stays *)
ErrorInv == Reading /\ x.st = "err" => \E k \in 1..(Len(src) + 1) : x.el = LineOf(src, k) /\ x.ec = ColOf(src, k)
(* each step consumes text *)
ProgressInv == Reading => x.i <= Len(src) + 1 /\ Len(x.toks) <= Len(src) + 1 /\ x.depth <= Len(x.toks)
(* white space after a complete text changes nothing; a text that ends inside a token can be completed *)
TrailInv == Reading /\ x.st = "done" => Lex(src \o <<"\n">>).toks = x.toks
(* only backquotes, quotes, block comments, braces and parameters can be left open *)
OpenInv == Reading /\ x.st = "err" => LET k == Skip(src, x.i, Spaces) IN src[k] \in {"`", "'", "\"", "/", "{", "@"}
Forward == [][x.st = "run" /\ x'.st = "run" => x'.i > x.i]_<<src, x, n>>
=============================================================================
