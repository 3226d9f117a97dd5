------------------------------- MODULE Grammar -------------------------------
(* The expression language: from character codes to an expression (Expr), or to *)
(* what must be reported about the text. Written from the documented grammar,   *)
(* not from the parser's algorithm (that is ShuntingYard).                      *)
EXTENDS Expr
LOCAL INSTANCE TLC
LOCAL INSTANCE SequencesExt

Spaces == {9, 10, 11, 12, 13, 32}
Digit  == 48..57
Letter == (65..90) \cup (97..122)
WordCh == Letter \cup Digit \cup {95}
OpChar == [c \in {37, 38, 40, 41, 42, 43, 45, 47, 94, 124} |->
             CASE c = 37 -> "%" [] c = 38 -> "&" [] c = 40 -> "(" [] c = 41 -> ")" [] c = 42 -> "*"
               [] c = 43 -> "+" [] c = 45 -> "-" [] c = 47 -> "/" [] c = 94 -> "^" [] c = 124 -> "|"]
IsOpCh(c) == c \in DOMAIN OpChar

Word(t, i, j) == SubSeq(t, i, j)
Count(w, S) == Cardinality({i \in 1..Len(w) : w[i] \in S})
AllIn(w, S) == \A i \in 1..Len(w) : w[i] \in S

(* digits with at most one point *)
IsMantissa(w) == Count(w, Digit) > 0 /\ Count(w, {46}) <= 1 /\ AllIn(w, Digit \cup {46})
(* position of the exponent letter of a number, 0 if none *)
ExpAt(w) == IF \E i \in 1..Len(w) : w[i] \in {69, 101}
            THEN CHOOSE i \in 1..Len(w) : w[i] \in {69, 101} /\ \A j \in 1..(i - 1) : w[j] \notin {69, 101}
            ELSE 0
IsDigits(w) == Len(w) > 0 /\ AllIn(w, Digit)
IsNumber(w) ==
  LET p == ExpAt(w) IN
  IF p = 0 THEN IsMantissa(w)
  ELSE /\ IsMantissa(SubSeq(w, 1, p - 1))
       /\ LET x == SubSeq(w, p + 1, Len(w))
          IN IsDigits(x) \/ (Len(x) > 1 /\ x[1] \in {43, 45} /\ IsDigits(Tail(x)))
IsName(w) == Len(w) > 0 /\ w[1] \notin Digit /\ AllIn(w, WordCh)

Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerW(w) == [i \in 1..Len(w) |-> Lower(w[i])]
(* spellings of numbers that C accepts and the documentation does not mention *)
IsOdd(w) ==
  LET v == LowerW(w) IN
  \/ v = <<105, 110, 102>> \/ v = <<110, 97, 110>> \/ v = <<105, 110, 102, 105, 110, 105, 116, 121>>
  \/ Len(v) > 2 /\ v[1] = 48 /\ v[2] = 120 /\ v[3] \in Digit \cup (97..102) \cup {46, 112}

(* a + or - at i continues the number that starts at j *)
IsExpSign(t, j, i) ==
  /\ t[i] \in {43, 45} /\ i - j >= 2 /\ t[i - 1] \in {69, 101}
  /\ i < Len(t) /\ t[i + 1] \in Digit
  /\ IsMantissa(SubSeq(t, j, i - 2))

FnName(w) ==
  LET s == CodesToStr(w) IN
  CASE s \in Funs -> s [] s = "arcsin" -> "asin" [] s = "arccos" -> "acos" [] s = "arctan" -> "atan" [] OTHER -> ""

(* token kinds: num, id, fn, op, bad (not a number and not a name), odd. p is the 0-based position *)
NumTok(w, p) ==
  LET s == CodesToStr(w) IN
  IF ~FFiniteStr(s) THEN [k |-> "odd", s |-> s, p |-> p] ELSE [k |-> "num", s |-> s, p |-> p]
WordTok(w, p) ==
  CASE Len(w) > 0 /\ IsNumber(w) -> NumTok(w, p)
    [] IsOdd(w) -> [k |-> "odd", s |-> "", p |-> p]
    [] FnName(w) # "" -> [k |-> "fn", s |-> FnName(w), p |-> p]
    [] IsName(w) -> [k |-> "id", s |-> CodesToStr(w), p |-> p]
    [] OTHER -> [k |-> "bad", s |-> "", p |-> p]

(* i: next character, j: start of the current word *)
RECURSIVE Lex(_, _, _, _)
Lex(t, i, j, acc) ==
  LET acc2 == IF j < i THEN Append(acc, WordTok(SubSeq(t, j, i - 1), j - 1)) ELSE acc IN
  IF i > Len(t) THEN acc2
  ELSE IF IsExpSign(t, j, i) THEN Lex(t, i + 1, j, acc)
  ELSE IF IsOpCh(t[i]) THEN Lex(t, i + 1, i + 1, Append(acc2, [k |-> "op", s |-> OpChar[t[i]], p |-> i - 1]))
  ELSE IF t[i] \in Spaces THEN Lex(t, i + 1, i + 1, acc2)
  ELSE Lex(t, i + 1, j, acc)
Tokens(t) == Lex(t, 1, 1, <<>>)

------------------------------------------------------------------------------
(* Well-formedness: a scan with one bit (is an operand expected?) and the stack  *)
(* of open parentheses. Collects every defect with its position.                *)
Scan(toks) ==
  LET start == [want |-> TRUE, open |-> <<>>, stray |-> {}, missing |-> {}, adj |-> <<>>]
      step(s, k) ==
        LET x == toks[k]
            adj == IF s.want THEN s.adj ELSE Append(s.adj, x.p) IN
        CASE x.k \in {"num", "id", "odd", "bad"} -> [s EXCEPT !.want = FALSE, !.adj = adj]
          [] x.k = "fn" -> [s EXCEPT !.want = TRUE, !.adj = adj]
          [] x.s = "(" -> [s EXCEPT !.want = TRUE, !.adj = adj, !.open = Append(@, x.p)]
          [] x.s = ")" ->
               LET m == IF s.want THEN s.missing \cup {x.p} ELSE s.missing IN
               IF s.open = <<>> THEN [s EXCEPT !.want = FALSE, !.stray = @ \cup {x.p}]
               ELSE [s EXCEPT !.want = FALSE, !.missing = m, !.open = SubSeq(@, 1, Len(@) - 1)]
          [] x.s \in {"+", "-"} /\ s.want -> s
          [] OTHER -> [s EXCEPT !.want = TRUE, !.missing = IF s.want THEN @ \cup {x.p} ELSE @]
      end == FoldLeft(step, start, [k \in 1..Len(toks) |-> k])
  IN [bad |-> {toks[k].p : k \in {k \in 1..Len(toks) : toks[k].k = "bad"}},
      odd |-> \E k \in 1..Len(toks) : toks[k].k = "odd",
      stray |-> end.stray,
      unclosed |-> {end.open[k] : k \in 1..Len(end.open)},
      missing |-> IF end.want THEN end.missing \cup {IF toks = <<>> THEN 0 ELSE toks[Len(toks)].p} ELSE end.missing,
      adj |-> end.adj]
WellFormed(s) == s.bad = {} /\ s.stray = {} /\ s.unclosed = {} /\ s.missing = {} /\ s.adj = <<>>

------------------------------------------------------------------------------
(* The grammar proper, for well-formed token lists. Binding strength of the      *)
(* binary operators; prefixes (signs, functions) bind tighter than all of them.  *)
Prec(op) == CASE op \in {"+", "-"} -> 5 [] op \in {"*", "/"} -> 10 [] op = "^" -> 11
              [] op \in {"&", "|"} -> 12 [] op = "%" -> 13
RightAssoc(op) == op = "^"

RECURSIVE PPrefix(_, _), PExpr(_, _, _), PTail(_, _, _, _)
(* results are <<expression, next position>> *)
PPrefix(q, i) ==
  LET x == q[i] IN
  CASE x.k = "num" -> << <<"n", x.s>>, i + 1>>
    [] x.k = "id" -> << <<"v", x.s>>, i + 1>>
    [] x.k = "fn" -> LET r == PPrefix(q, i + 1) IN << <<x.s, r[1]>>, r[2]>>
    [] x.s = "+" -> LET r == PPrefix(q, i + 1) IN << <<"pos", r[1]>>, r[2]>>
    [] x.s = "-" -> LET r == PPrefix(q, i + 1) IN << <<"neg", r[1]>>, r[2]>>
    [] x.s = "(" -> LET r == PExpr(q, i + 1, 0) IN <<r[1], r[2] + 1>>
(* an expression whose top-level operators bind at least as strongly as min *)
PExpr(q, i, min) == LET r == PPrefix(q, i) IN PTail(q, r[1], r[2], min)
PTail(q, left, i, min) ==
  IF i > Len(q) \/ q[i].s = ")" \/ Prec(q[i].s) < min THEN <<left, i>>
  ELSE LET op == q[i].s
           r == PExpr(q, i + 1, IF RightAssoc(op) THEN Prec(op) ELSE Prec(op) + 1)
       IN PTail(q, <<op, left, r[1]>>, r[2], min)

ParseTokens(q) == PExpr(q, 1, 0)[1]

(* what a text is: accepted with a meaning, or rejected because of its defects *)
ParseText(t) ==
  LET q == Tokens(t)
      s == Scan(q)
  IN IF s.odd THEN [k |-> "odd"]
     ELSE IF WellFormed(s) THEN [k |-> "ok", e |-> ParseTokens(q)]
     ELSE [k |-> "err", s |-> s]

(* the numbers of a printed text are only known to the printed precision *)
RECURSIVE Printed(_)
Printed(e) ==
  IF e[1] = "n" THEN <<"np", e[2]>> ELSE IF IsLeaf(e) THEN e
  ELSE IF Len(e) = 2 THEN <<e[1], Printed(e[2])>> ELSE <<e[1], Printed(e[2]), Printed(e[3])>>

------------------------------------------------------------------------------
(* Which reports of a rejected text are right. out is the observed outcome.      *)
Single(s) == (IF s.bad # {} THEN 1 ELSE 0) + (IF s.stray # {} THEN 1 ELSE 0) + (IF s.unclosed # {} THEN 1 ELSE 0)
             + (IF s.missing # {} THEN 1 ELSE 0) + (IF s.adj # <<>> THEN 1 ELSE 0)
RejectOk(t, s, out) ==
  /\ out.k \in {"parse1", "parsem", "parse"}
  /\ out.k = "parse1" => out.pos >= 0 /\ out.pos <= Len(t)
  /\ ("line" \in DOMAIN out /\ \A i \in 1..Len(t) : t[i] \notin {10, 13}) => out.line = 0     \* the first and only one
  (* illegal names, stray and unclosed parentheses are located *)
  /\ (Single(s) = 1 /\ s.bad # {}) => out.k = "parse1" /\ out.pos \in s.bad
  /\ (Single(s) = 1 /\ s.stray # {}) => out.k = "parse1" /\ out.pos \in s.stray
  /\ (Single(s) = 1 /\ s.unclosed # {}) => out.k = "parse1" /\ out.pos \in s.unclosed
  /\ (Single(s) > 1 /\ s.adj = <<>> /\ s.missing = {}) => out.k = "parse1" /\ out.pos \in (s.bad \cup s.stray \cup s.unclosed)

(* messages: the whole input on its own line(s), then a caret under the position *)
Nl == <<10>>
Blank(n) == [i \in 1..n |-> 32]
Caret(t, pos) == Nl \o t \o Nl \o Blank(pos) \o <<94>>
At(w, i, pat) == i + Len(pat) - 1 <= Len(w) /\ SubSeq(w, i, i + Len(pat) - 1) = pat
Occurs(w, pat) == \E i \in 1..Len(w) : At(w, i, pat)
Places(w, pat) == {i \in 1..Len(w) : At(w, i, pat)}
(* several operands without an operator between them are reported in order; which token stands *)
(* for an operand under a prefix or in parentheses is left open                                *)
Ordered(t) == LET q == Tokens(t) IN \A i \in 1..Len(q) : q[i].k # "fn" /\ q[i].s \notin {"(", ")", "+", "-"}
MessageOk(t, out) ==
  CASE \E i \in 1..Len(t) : t[i] = 0 -> TRUE      \* what() is a C string
    [] out.k = "parse1" -> Occurs(out.what, Caret(t, out.pos))
    [] out.k = "parsem" ->
         LET at == {<<i, p>> \in (1..Len(out.what)) \X (0..Len(t)) : At(out.what, i, Caret(t, p))}
         IN at # {} /\ (Ordered(t) => \A a, b \in at : a[1] < b[1] => a[2] < b[2])
    [] OTHER -> out.what # <<>>
=============================================================================
