------------------------------- MODULE SymMatrix -------------------------------
(* Matrices of expressions, held by name: [r, c, es] with es a sequence of values  *)
(* as in the slots of System, row by row.                                          *)
EXTENDS Matrix
LOCAL INSTANCE SequencesExt

PutM(s, d, r, c, es) == [s EXCEPT !.mats = (d :> [r |-> r, c |-> c, es |-> es]) @@ @, !.n = @ + 1]
SGet(m, i, j) == m.es[i * m.c + j + 1]
Calced(v, n) == IF HasTree(v) THEN [k |-> "loose", e |-> Tree(v), id |-> n, num |-> TRUE] ELSE v
Refused == {"runtime", "math"}

(* the value of op applied to a and b; only the values of the result are specified *)
LooseOp(s, op, a, b) == IF HasTree(a) /\ HasTree(b) THEN Loose(<<op, Tree(a), Tree(b)>>, s.n) ELSE Unknown
SMul(s, A, B) ==
  [k \in 1..(A.r * B.c) |->
     LET i == (k - 1) \div B.c
         j == (k - 1) % B.c
         t(q) == LooseOp(s, "*", SGet(A, i, q), SGet(B, q, j))
     IN FoldLeft(LAMBDA x, q : LooseOp(s, "+", x, t(q)), t(0), [q \in 1..(A.c - 1) |-> q])]

SSubst(s, v, m) ==
  LET d == [x \in DOMAIN m |-> <<"n", m[x]>>] IN
  CASE v.k = "ast" -> Ast(Subst(v.e, d)) [] HasTree(v) -> Loose(Subst(Tree(v), d), s.n) [] OTHER -> v
SDiff(s, v, x) ==
  CASE v.k \in {"ast", "loose"} -> Der(v.e, <<<<x, 1>>>>, s.n) [] v.k = "der" -> Der(v.e, v.vs \o <<<<x, 1>>>>, s.n) [] OTHER -> Unknown

SObs(s, ev, m) ==
  LET o == ev.out IN
  IF o.k # "ok" THEN {"observation failed"}
  ELSE IF o.r # m.r \/ o.c # m.c \/ o.empty # (m.r * m.c = 0) \/ Len(o.es) # Len(m.es) THEN {"shape is " \o Show(<<o.r, o.c>>)}
  ELSE UNION {LET x == o.es[i] v == m.es[i] IN
              IF v.k = "any" THEN {}
              ELSE IF x.null # (v.k = "null") THEN {"an entry is empty, or not"}
              ELSE IF v.k = "null" THEN {}
              ELSE (IF VarsOk(v, x.vars) THEN {} ELSE {"entry " \o ToString(i) \o " has variables " \o Show(x.vars) \o ", not those of " \o Show(v)})
                   \cup UNION {IF ValueOk(s, v, Env(ev.pts[p]), x.vals[p]) THEN {}
                               ELSE {"entry " \o ToString(i) \o " of " \o ToString(m.r) \o "x" \o ToString(m.c) \o " has value " \o Show(x.vals[p]) \o " expected " \o FShow(Expected(s, v, Env(ev.pts[p])))
                                     \o " for " \o Show(v) \o " at " \o Show(ev.pts[p])}
                               : p \in 1..Len(ev.pts)} : i \in 1..Len(m.es)}
       \cup (IF \A v \in Range(m.es) : v.k = "ast"
             THEN IF {o.vars[i] : i \in 1..Len(o.vars)} = UNION {Vars(v.e) : v \in Range(m.es)}
                     /\ \A i, j \in 1..Len(o.vars) : i # j => o.vars[i] # o.vars[j] THEN {} ELSE {"variables of the matrix are " \o Show(o.vars)}
             ELSE IF \A v \in Range(m.es) : HasTree(v)
             THEN IF {o.vars[i] : i \in 1..Len(o.vars)} = UNION {{o.es[i].vars[k] : k \in 1..Len(o.es[i].vars)} : i \in 1..Len(o.es)} THEN {} ELSE {"variables of the matrix are " \o Show(o.vars)}
             ELSE {})

SStr(s, ev, m) ==
  LET o == ev.out w == o.str IN
  IF o.k # "ok" \/ ~o.strsame THEN {"printing a matrix failed"}
  ELSE IF Len(m.es) = 0 THEN (IF w = <<91, 93, 10>> THEN {} ELSE {"printed " \o CodesToStr(w)})
  ELSE IF ~Framed(w) THEN {"printed " \o CodesToStr(w)}
  ELSE LET p == Pieces(w) IN
       IF Len(p) # m.r \/ \E i \in 1..m.r : Len(p[i]) # m.c THEN {"printed " \o CodesToStr(w)}
       ELSE UNION {LET v == m.es[k]
                       q == ParseText(p[(k - 1) \div m.c + 1][((k - 1) % m.c) + 1])
                   IN IF v.k # "ast" THEN {}
                      ELSE IF q.k # "ok" THEN {"printed " \o CodesToStr(w)}
                      ELSE IF Vars(q.e) # Vars(v.e) THEN {"printed " \o CodesToStr(w) \o " for " \o Show(v.e)}
                      ELSE IF \A i \in 1..Len(ev.pts) : FMeet(40, Eval(40, Printed(q.e), Env(ev.pts[i])), Eval(40, v.e, Env(ev.pts[i]))) THEN {}
                      ELSE {"printed " \o CodesToStr(w) \o " for " \o Show(v.e)} : k \in 1..Len(m.es)}

DoSym(s, ev) ==
  LET o == ev.out
      f == ev.f
      ok == o.k = "ok"
      A == s.mats[ev.a]
      B == s.mats[ev.b]
      fine(r, c, es) == Res(ok, f \o " failed: " \o Show([o EXCEPT !.k = o.k]), IF ok THEN PutM(s, ev.d, r, c, es) ELSE s)
      noVal(v) == v.k = "ast" /\ (Vars(v.e) # {})
  IN CASE f \in {"set", "setvec"} -> fine(ev.m.r, ev.m.c, [i \in 1..Len(ev.m.e) |-> Ast(ev.m.e[i])])
       [] f = "frommat" -> fine(ev.m.r, ev.m.c, [i \in 1..Len(ev.m.d) |-> Ast(<<"n", ev.m.d[i]>>)])
       [] f = "obs" -> [why |-> SObs(s, ev, A), s |-> s]
       [] f = "mul" -> IF A.c # B.r THEN Res(o.k = "math" /\ o.e = 15, "shapes were multiplied", s) ELSE fine(A.r, B.c, SMul(s, A, B))
       [] f \in {"sub", "vsub"} ->
            IF f = "vsub" /\ (A.c # 1 \/ B.c # 1) THEN Res(o.k = "runtime", "a matrix became a vector", s)
            ELSE fine(A.r, A.c, [k \in 1..Len(A.es) |-> LooseOp(s, "-", A.es[k], B.es[k])])
       [] f = "clone" -> fine(A.r, A.c, A.es)
       [] f = "tovec" -> IF A.c # 1 THEN Res(o.k = "runtime", "a matrix became a vector", s) ELSE fine(A.r, 1, A.es)
       [] f = "onebyone" -> fine(A.r * A.c, 1, A.es)
       [] f \in {"subs", "subst"} -> Res(ok, f \o " failed", PutM(s, ev.a, A.r, A.c, [k \in 1..Len(A.es) |-> SSubst(s, A.es[k], ev.m)]))
       [] f = "calc" ->
            LET vals == [k \in 1..Len(A.es) |-> IF HasTree(A.es[k]) /\ Vars(Tree(A.es[k])) = {} THEN Expected(s, A.es[k], NoEnv) ELSE FUnsure]
                must == \E k \in 1..Len(A.es) : noVal(A.es[k]) \/ (A.es[k].k = "ast" /\ FTag(vals[k]) = 1)
                may == \E k \in 1..Len(A.es) : A.es[k].k = "any" \/ Vars(A.es[k].e) # {} \/ FTag(vals[k]) # 0
            IN IF ok THEN Res(~must, "a matrix with a variable or invalid entry was evaluated", PutM(s, ev.a, A.r, A.c, [k \in 1..Len(A.es) |-> Calced(A.es[k], s.n)]))
               ELSE Res(may, "evaluation of a matrix failed", PutM(s, ev.a, A.r, A.c, [k \in 1..Len(A.es) |-> IF HasTree(A.es[k]) THEN Loose(Tree(A.es[k]), s.n) ELSE A.es[k]]))
       [] f = "tomat" ->
            LET isnum(v) == (v.k = "ast" /\ IsNum(v.e)) \/ "num" \in DOMAIN v
                isnot(v) == v.k = "ast" /\ ~IsNum(v.e)
            IN IF ok THEN IF \E v \in Range(A.es) : isnot(v) THEN Res(FALSE, "an expression became a number", s)
                          ELSE Res(o.m.r = A.r /\ o.m.c = A.c /\ Len(o.m.d) = Len(A.es)
                                   /\ \A k \in 1..Len(A.es) : A.es[k].k = "any" \/ ValueOk(s, A.es[k], NoEnv, [k |-> "ok", v |-> o.m.d[k]]), "numbers are " \o Show(o.m) \o " of " \o Show(A), s)
               ELSE Res(o.k = "runtime" /\ ~\A v \in Range(A.es) : isnum(v), "conversion to numbers refused: " \o Show(A), s)
       [] f = "eq" ->
            IF ~ok THEN Res(FALSE, "comparison of matrices failed", s)
            ELSE IF A.r # B.r \/ A.c # B.c THEN Res(~o.b, "matrices of other shapes are equal", s)
            ELSE IF \A v \in Range(A.es) \cup Range(B.es) : v.k = "ast"
            THEN Res(o.b = (\A k \in 1..Len(A.es) : Same(A.es[k].e, B.es[k].e)), "equality is " \o Show(o.b) \o " of " \o Show(A) \o " and " \o Show(B), s)
            ELSE Res((A = B /\ \A v \in Range(A.es) : HasTree(v)) => o.b, "a copy of a matrix is not equal", s)
       [] f = "put" -> Res(ok, "assignment of an entry failed", PutM(s, ev.a, A.r, A.c, [A.es EXCEPT ![ev.i * A.c + ev.j + 1] = Ast(ev.e)]))
       [] f = "jac" ->
            LET refuse == Len(ev.vs) > 0 /\ \E v \in Range(A.es) : v.k = "ast" /\ MustRefuse(v.e)
                may == \E v \in Range(A.es) : ~HasTree(v) \/ AnyBits(Tree(v)) \/ BadConst(48, Tree(v)) \/ BadBase(Tree(v)) \/ NowhereDefined(Tree(v), ev.pts)
            IN IF ok THEN Res(~refuse, "a Jacobian of " \o Show(A), PutM(s, ev.d, A.r, Len(ev.vs), [k \in 1..(A.r * Len(ev.vs)) |->
                                SDiff(s, A.es[(k - 1) \div Len(ev.vs) + 1], ev.vs[((k - 1) % Len(ev.vs)) + 1])]))
               ELSE Res(may /\ o.k \in Refused, "Jacobian refused", s)
       [] f = "str" -> [why |-> SStr(s, ev, A), s |-> s]
=============================================================================
