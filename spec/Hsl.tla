--------------------------------- MODULE Hsl --------------------------------
(***************************************************************************)
(* The HSL notation: a lexer and a parser as a machine which reads one     *)
(* token at a time. Texts are sequences of code points; an invalid byte is *)
(* a negative number and is read as U+FFFD.                                *)
(*                                                                         *)
(* A document is "ok" (well formed: the sections are promised), "error"    *)
(* (it violates the format: an error is promised) or "loose" (not covered  *)
(* by the notation's description: only that reading it ends is promised).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Letter(_), Digit(_), Space(_)

cNL == 10  cQuote == 34  cSharp == 35  cComma == 44  cHyphen == 45
cColon == 58  cEqual == 61  cGreater == 62  cBack == 92  cLow == 95

Initial(c) == c = cLow \/ Letter(c)
Inner(c)   == Initial(c) \/ Digit(c)
Char(c)    == IF c < 0 THEN 65533 ELSE c
IsBlank(c) == c # cNL /\ Space(c)

Newlines(d, i, j) == Cardinality({k \in i..(j-1) : d[k] = cNL})

(* the first position at or after i which does not belong to the run, or   *)
(* the end                                                                 *)
Runs(run, x) == CASE run = "blank" -> IsBlank(x) [] run = "word" -> Inner(x) [] OTHER -> x # cNL
RECURSIVE Until(_, _, _)
Until(d, i, run) == IF i > Len(d) THEN i ELSE IF ~Runs(run, d[i]) THEN i ELSE Until(d, i+1, run)

(* a quoted string: <<closed, value, the position after it>> *)
RECURSIVE Quoted(_, _, _)
Quoted(d, i, acc) ==
    IF i > Len(d) THEN <<FALSE, acc, i>>
    ELSE IF d[i] = cQuote THEN <<TRUE, acc, i+1>>
    ELSE IF d[i] = cBack
         THEN IF i + 1 > Len(d) THEN <<FALSE, acc, i+1>>
              ELSE IF d[i+1] \in {cQuote, cBack} THEN Quoted(d, i+2, Append(acc, d[i+1]))
              ELSE Quoted(d, i+2, acc \o <<cBack, Char(d[i+1])>>)
    ELSE Quoted(d, i+1, Append(acc, Char(d[i])))

(* the token at i: [t, v, nx]. A comment ends before its newline.           *)
Tok(t, v, nx) == [t |-> t, v |-> v, nx |-> nx]
Scan(d, i) ==
    IF i > Len(d) THEN Tok("end", <<>>, i)
    ELSE LET c == d[i] IN
    CASE c = cNL -> Tok("newline", <<>>, i+1)
      [] IsBlank(c) -> Tok("blank", <<>>, Until(d, i, "blank"))
      [] Initial(c) -> LET j == Until(d, i, "word") IN Tok("string", SubSeq(d, i, j-1), j)
      [] c = cQuote -> LET q == Quoted(d, i+1, <<>>) IN Tok(IF q[1] THEN "string" ELSE "illegal", q[2], q[3])
      [] c = cSharp -> Tok("comment", <<>>, Until(d, i, "line"))
      [] c = cColon -> Tok(":", <<>>, i+1)
      [] c = cComma -> Tok(",", <<>>, i+1)
      [] c = cEqual -> Tok("=", <<>>, i+1)
      [] c = cHyphen /\ i < Len(d) /\ d[i+1] = cGreater -> Tok("->", <<>>, i+2)
      [] OTHER -> Tok("illegal", <<c>>, i+1)

(* ---- the parser's state ------------------------------------------------- *)
NoString == <<-1>>
Start == [i |-> 1, line |-> 1, mode |-> "top", str |-> NoString, name |-> NoString, nameline |-> 0,
          headed |-> {}, secs |-> <<>>, sign |-> "", left |-> <<>>, vals |-> <<>>, need |-> TRUE, at |-> 0,
          verdict |-> "run", loose |-> FALSE, noright |-> FALSE]

IndexOf(secs, name) == LET K == {k \in 1..Len(secs) : secs[k].name = name}
                       IN IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE

Loosely(s) == [s EXCEPT !.loose = TRUE]
Wrong(s)   == [s EXCEPT !.verdict = IF s.loose THEN "loose" ELSE "error"]

(* a pair is complete *)
AddPair(s) ==
    LET k    == IndexOf(s.secs, s.name)
        kind == IF s.sign = "=" THEN "dict" ELSE "list"
        pair == [l |-> s.left, r |-> s.vals, line |-> s.at]
        t    == [s EXCEPT !.mode = "top", !.str = NoString, !.noright = @ \/ s.vals = <<>>]
    IN IF k = 0
       THEN [t EXCEPT !.secs = Append(@, [name |-> s.name, kind |-> kind, line |-> s.nameline, pairs |-> <<pair>>])]
       ELSE IF s.secs[k].kind # kind THEN Wrong(t)
       ELSE IF kind = "dict" /\ \E p \in 1..Len(s.secs[k].pairs) : s.secs[k].pairs[p].l = s.left THEN Wrong(t)
       ELSE [t EXCEPT !.secs[k].pairs = Append(@, pair)]

Top(s, k) ==
    CASE k.t = "string"  -> [(IF s.str # NoString THEN Loosely(s) ELSE s) EXCEPT !.str = k.v]
      [] k.t \in {"newline", "comment"} -> IF s.str # NoString THEN Loosely(s) ELSE s
      [] k.t = ","       -> Loosely(s)
      [] k.t = ":" -> IF s.str = NoString \/ s.str = <<>> THEN Loosely(s)
                      ELSE [s EXCEPT !.name = s.str, !.str = NoString,
                                     \* a heading repeated before its first pair: its line is not promised
                                     !.nameline = IF s.str \in s.headed THEN 0 ELSE s.line,
                                     !.headed = @ \cup {s.str}]
      [] k.t \in {"=", "->"} ->
            IF s.name = NoString THEN Wrong(s)
            ELSE [(IF s.str = NoString THEN Loosely(s) ELSE s)
                    EXCEPT !.mode = "vals", !.sign = k.t, !.left = IF s.str = NoString THEN <<>> ELSE s.str,
                           !.vals = <<>>, !.need = TRUE, !.at = s.line]
      [] k.t = "end" -> [s EXCEPT !.verdict = IF s.loose \/ s.str # NoString THEN "loose" ELSE "ok"]
      [] OTHER -> s

Vals(s, k) ==
    CASE k.t = "string" -> [(IF s.need THEN s ELSE Loosely(s)) EXCEPT !.vals = Append(@, k.v), !.need = FALSE]
      [] k.t = "," -> [(IF s.need THEN Loosely(s) ELSE s) EXCEPT !.need = TRUE]
      [] k.t \in {":", "=", "->"} -> Loosely(s)
      [] k.t \in {"newline", "comment", "end"} ->
            LET t == AddPair(IF s.need /\ s.vals # <<>> THEN Loosely(s) ELSE s)
            IN IF k.t # "end" \/ t.verdict # "run" THEN t
               ELSE [t EXCEPT !.verdict = IF t.loose THEN "loose" ELSE "ok"]
      [] OTHER -> s

Read(d, s) ==
    LET k == Scan(d, s.i)
        t == [s EXCEPT !.line = s.line + Newlines(d, s.i, k.nx)]
    IN IF k.t = "illegal" THEN [s EXCEPT !.verdict = "error"]
       ELSE [(IF s.mode = "top" THEN Top([s EXCEPT !.line = IF k.t = "newline" THEN @ ELSE t.line], k) ELSE Vals(s, k))
               EXCEPT !.i = k.nx, !.line = t.line]

(* an illegal character or an unclosed string anywhere makes an error even  *)
(* if the document was loose before; so a loose document is read to its end *)
RECURSIVE Lexical(_, _)
Lexical(d, i) == LET k == Scan(d, i)
                 IN IF k.t = "illegal" THEN FALSE ELSE IF k.t = "end" THEN TRUE ELSE Lexical(d, k.nx)

RECURSIVE ReadAll(_, _)
ReadAll(d, s) == IF s.verdict = "run" THEN ReadAll(d, Read(d, s)) ELSE s
Parsed(d) == LET s == ReadAll(d, Start)
             IN [s EXCEPT !.verdict = IF ~Lexical(d, 1) THEN "error" ELSE @]
=============================================================================
