------------------------------- MODULE Printer -------------------------------
(* The printing algorithm, step by step (a stack of nodes whose left line has     *)
(* been opened), for every tree of at most SIZE nodes: the printed tokens are     *)
(* well formed and the grammar reads them as the same tree, up to the rotation    *)
(* a+(b-c) = (a+b)-c of sums and products that printing may apply.                *)
EXTENDS Grammar, TLC, IOUtils

SIZE == atoi(IOEnv.SIZE)
Leaves == {<<"v", "x">>, <<"n", "2">>, <<"n", "-2">>}
Uns == {"neg", "pos", "sin"}
Bins == {"+", "-", "*", "/", "^", "%", "&"}
RECURSIVE TreesOf(_)
TreesOf(k) ==
  IF k = 1 THEN Leaves
  ELSE {<<u, t>> : u \in Uns, t \in TreesOf(k - 1)}
       \cup UNION {{<<b, l, r>> : b \in Bins, l \in TreesOf(i), r \in TreesOf(k - 1 - i)} : i \in 1..(k - 2)}

VARIABLES e, stk, out
vars == <<e, stk, out>>

T(k, s) == [k |-> k, s |-> s, p |-> 0]
Op(s) == T("op", s)
Leaf(t) == IF t[1] = "v" THEN <<T("id", t[2])>>
           ELSE IF FSgnStr(t[2]) < 0 THEN <<Op("-"), T("num", "2")>> ELSE <<T("num", t[2])>>
IsOp(t) == t[1] \notin {"n", "np", "v"}
Assoc(op) == op \in {"+", "*"}
(* a node in its place: parent operator ("" at the root), is it a right operand *)
At0(t, par, right) == [t |-> t, par |-> par, right |-> right]
Rank2(op) == IF op \in Funs THEN 15 ELSE IF op \in Signs THEN 14 ELSE Prec(op)
Parens(c) == /\ c.par \in BinOps
             /\ \/ Rank2(c.par) > Rank2(c.t[1])
                \/ /\ Rank2(c.par) = Rank2(c.t[1]) /\ ~Assoc(c.par)
                   /\ (c.right \/ RightAssoc(c.t[1]))
RP == [t |-> <<")">>, par |-> "", right |-> FALSE]
(* opens the left line of a node: <<stack, output>> *)
RECURSIVE Open(_, _, _)
Open(c, s, o) ==
  LET t == c.t IN
  IF ~IsOp(t) THEN <<Append(s, c), o>>
  ELSE IF Len(t) = 2
  THEN LET sym == IF t[1] = "neg" THEN Op("-") ELSE IF t[1] = "pos" THEN Op("+") ELSE T("fn", t[1]) IN
       IF t[1] \in Signs /\ ~IsOp(t[2]) THEN Open(At0(t[2], t[1], FALSE), s, Append(o, sym))
       ELSE Open(At0(t[2], t[1], FALSE), Append(s, RP), o \o <<sym, Op("(")>>)
  ELSE IF Parens(c) THEN Open(At0(t[2], t[1], FALSE), Append(Append(s, RP), c), Append(o, Op("(")))
  ELSE Open(At0(t[2], t[1], FALSE), Append(s, c), o)

Init == /\ e \in UNION {TreesOf(k) : k \in 1..SIZE}
        /\ LET r == Open(At0(e, "", FALSE), <<>>, <<>>) IN stk = r[1] /\ out = r[2]
Next ==
  /\ stk # <<>>
  /\ LET c == stk[Len(stk)]
         s == SubSeq(stk, 1, Len(stk) - 1)
         t == c.t
     IN IF t[1] = ")" THEN stk' = s /\ out' = Append(out, Op(")"))
        ELSE IF ~IsOp(t)
        THEN /\ stk' = s
             /\ out' = out \o (IF t[1] = "n" /\ FSgnStr(t[2]) < 0 /\ c.right /\ c.par = "-"
                               THEN <<Op("(")>> \o Leaf(t) \o <<Op(")")>> ELSE Leaf(t))
        ELSE LET r == Open(At0(t[3], t[1], TRUE), s, Append(out, Op(t[1]))) IN stk' = r[1] /\ out' = r[2]
  /\ e' = e
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* what the text denotes: numbers lose their sign to an operator, sums rotate *)
RECURSIVE Rot(_)
Rot(t) ==
  IF t[1] = "n" THEN (IF FSgnStr(t[2]) < 0 THEN <<"neg", <<"n", "2">>>> ELSE t)
  ELSE IF ~IsOp(t) THEN t
  ELSE IF Len(t) = 2 THEN <<t[1], Rot(t[2])>>
  ELSE LET l == Rot(t[2]) r == Rot(t[3])
           RECURSIVE Graft(_)      \* l op r with r's left line opened
           Graft(x) == IF x[1] \in BinOps /\ Prec(x[1]) = Prec(t[1]) THEN <<x[1], Graft(x[2]), x[3]>> ELSE <<t[1], l, x>>
       IN IF Assoc(t[1]) THEN Graft(r) ELSE <<t[1], l, r>>
Faithful == stk = <<>> => WellFormed(Scan(out)) /\ ParseTokens(out) = Rot(e)
(* rotation keeps the value *)
Pt == [x \in {"x"} |-> FLit(48, "1.25")]
RotOk == stk = <<>> => LET a == Eval(40, e, Pt) b == Eval(40, Rot(e), Pt) IN FMeet(40, a, b)
=============================================================================
