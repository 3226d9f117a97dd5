----------------------------- MODULE ShuntingYard -----------------------------
(* The parser's algorithm, step by step: a list of tokens in order, a stack of    *)
(* pending operators, a list in post-order, and finally a stack of trees. Checked *)
(* against Grammar for every list of at most L tokens: it accepts exactly the     *)
(* well-formed lists, with the tree of the grammar, and its reports are allowed.  *)
EXTENDS Grammar, TLC, IOUtils

L == atoi(IOEnv.L)
Kinds == {<<"id", "x">>, <<"num", "2">>, <<"fn", "sin">>}
         \cup {<<"op", o>> : o \in {"+", "-", "*", "^", "%", "(", ")"}}

VARIABLES q, in, stk, post, bal, prev, res
vars == <<q, in, stk, post, bal, prev, res>>

Mk(f) == [i \in DOMAIN f |-> [k |-> f[i][1], s |-> f[i][2], p |-> i - 1]]
IsUnary(t, i) == i = 1 \/ t[i - 1].k = "fn" \/ (t[i - 1].k = "op" /\ t[i - 1].s # ")")
(* signs are told from operators by the token before them *)
Marked(t) == [i \in DOMAIN t |-> IF t[i].k = "op" /\ t[i].s \in {"+", "-"} /\ IsUnary(t, i)
                                 THEN [t[i] EXCEPT !.k = "sign"] ELSE t[i]]

Init == /\ \E len \in 1..L : \E f \in [1..len -> Kinds] : q = Mk(f)
        /\ in = Marked(q) /\ stk = <<>> /\ post = <<>> /\ bal = 0 /\ prev = FALSE /\ res = [k |-> "run"]

Top(s) == s[Len(s)]
Pop(s) == SubSeq(s, 1, Len(s) - 1)
Rank(t) == CASE t.k = "fn" -> 15 [] t.k = "sign" -> 14 [] t.s = "(" -> 0 [] OTHER -> Prec(t.s)
Fail(p) == res' = [k |-> "err", p |-> p] /\ UNCHANGED <<q, in, stk, post, bal, prev>>

(* moves operators from the stack to the post-order while c holds: <<stack, post>> *)
RECURSIVE Squeeze(_, _, _, _)
Squeeze(s, o, rank, strict) ==
  IF s # <<>> /\ (IF strict THEN rank < Rank(Top(s)) ELSE rank <= Rank(Top(s)))
  THEN Squeeze(Pop(s), Append(o, Top(s)), rank, strict) ELSE <<s, o>>
RECURSIVE ToParen(_, _)
ToParen(s, o) == IF Top(s).s = "(" THEN <<Pop(s), o>> ELSE ToParen(Pop(s), Append(o, Top(s)))
RECURSIVE Signs1(_, _)
Signs1(s, o) == IF s # <<>> /\ Top(s).k = "sign" THEN Signs1(Pop(s), Append(o, Top(s))) ELSE <<s, o>>

Operand(t) == /\ t.k \in {"id", "num"} /\ post' = Append(post, t) /\ prev' = TRUE /\ in' = Tail(in)
              /\ UNCHANGED <<q, stk, bal, res>>
Push(t, s, o) ==
  IF Len(in) = 1 /\ ~(prev' = TRUE) THEN res' = [k |-> "err", p |-> t.p] /\ UNCHANGED <<q, in, stk, post, bal>>
  ELSE stk' = Append(s, t) /\ post' = o /\ in' = Tail(in) /\ UNCHANGED <<q, bal, res>>
Prefix(t) == t.k \in {"sign", "fn"} /\ prev' = FALSE /\ Push(t, stk, post)
Open(t) == /\ t.s = "(" /\ prev' = FALSE
           /\ IF Len(in) = 1 THEN res' = [k |-> "err", p |-> t.p] /\ UNCHANGED <<q, in, stk, post, bal>>
              ELSE stk' = Append(stk, t) /\ in' = Tail(in) /\ bal' = bal + 1 /\ UNCHANGED <<q, post, res>>
Close(t) ==
  /\ t.s = ")"
  /\ IF bal = 0 \/ ~prev THEN Fail(t.p)
     ELSE LET a == ToParen(stk, post)
              b == IF a[1] # <<>> /\ Top(a[1]).k = "fn" THEN <<Pop(a[1]), Append(a[2], Top(a[1]))>> ELSE a
              c == Signs1(b[1], b[2])
          IN stk' = c[1] /\ post' = c[2] /\ in' = Tail(in) /\ bal' = bal - 1 /\ UNCHANGED <<q, prev, res>>
Binary(t) ==
  /\ t.k = "op" /\ t.s \notin {"(", ")"}
  /\ IF ~prev THEN Fail(t.p)
     ELSE LET a == Squeeze(stk, post, Rank(t), RightAssoc(t.s)) IN prev' = FALSE /\ Push(t, a[1], a[2])

(* the post-order made into trees *)
RECURSIVE Trees(_, _)
Trees(o, s) ==
  IF o = <<>> THEN s
  ELSE LET t == Head(o) IN
    CASE t.k = "num" -> Trees(Tail(o), Append(s, [e |-> <<"n", t.s>>, p |-> t.p]))
      [] t.k = "id" -> Trees(Tail(o), Append(s, [e |-> <<"v", t.s>>, p |-> t.p]))
      [] t.k \in {"fn", "sign"} -> IF s = <<>> THEN <<>>
           ELSE Trees(Tail(o), Append(Pop(s), [e |-> <<IF t.k = "fn" THEN t.s ELSE IF t.s = "+" THEN "pos" ELSE "neg", Top(s).e>>, p |-> t.p]))
      [] OTHER -> IF Len(s) < 2 THEN <<>>
           ELSE Trees(Tail(o), Append(SubSeq(s, 1, Len(s) - 2), [e |-> <<t.s, s[Len(s) - 1].e, Top(s).e>>, p |-> t.p]))
Finish ==
  /\ in = <<>>
  /\ LET o == post \o [i \in 1..Len(stk) |-> stk[Len(stk) + 1 - i]]
         ts == Trees(o, <<>>)
     IN IF \E i \in 1..Len(stk) : stk[i].s = "("
        THEN res' = [k |-> "err", p |-> LET i == CHOOSE i \in 1..Len(stk) : stk[i].s = "(" /\ \A j \in (i + 1)..Len(stk) : stk[j].s # "("
                                        IN stk[i].p]
        ELSE IF ts = <<>> THEN res' = [k |-> "wrong"]
        ELSE IF Len(ts) > 1 THEN res' = [k |-> "multi", ps |-> [i \in 1..(Len(ts) - 1) |-> ts[i].p]]
        ELSE res' = [k |-> "ok", e |-> ts[1].e]
  /\ UNCHANGED <<q, in, stk, post, bal, prev>>

Next == /\ res.k = "run"
        /\ \/ Finish
           \/ /\ in # <<>>
              /\ LET t == Head(in) IN Operand(t) \/ Prefix(t) \/ Open(t) \/ Close(t) \/ Binary(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
D == Scan(q)
Sound == res.k = "ok" => WellFormed(D) /\ res.e = ParseTokens(q)
Complete == res.k \in {"err", "multi"} => ~WellFormed(D)
NeverWrong == res.k # "wrong"
(* the reports: within the text, at an offending token, in order *)
Reports ==
  /\ res.k = "err" => LET o == [k |-> "parse1", pos |-> res.p] IN RejectOk([i \in 1..Len(q) |-> 0], D, o)
  /\ res.k = "multi" => D.adj # <<>> /\ \A i \in 1..(Len(res.ps) - 1) : res.ps[i] < res.ps[i + 1]
Balance == res.k = "run" => bal = Cardinality({i \in 1..Len(stk) : stk[i].s = "("})
Ends == <>(res.k # "run")
=============================================================================
