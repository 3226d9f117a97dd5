--------------------------------- MODULE Linear ---------------------------------
(* Linear systems. The class of a system is defined twice: by ranks, which are the *)
(* sizes of the largest minors that do not vanish (for small integers, exactly),   *)
(* and by elimination with error bounds, which leaves it open where rounding or     *)
(* the tolerance decides. MC_Linear checks that they and the algorithm agree.       *)
EXTENDS VarsTab
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt

(* a system is a sequence of rows; the last element of a row is its right-hand side *)
Rows(A, b) == TLCEval([i \in 1..A.r |-> TLCEval([j \in 1..(A.c + 1) |-> IF j <= A.c THEN Mx(A, i - 1, j - 1) ELSE b[i]])])

------------------------------------------------------------------------------
(* by minors, over the integers *)
RECURSIVE IDet(_)
IDet(m) == IF Len(m) = 0 THEN 1
           ELSE FoldLeft(LAMBDA x, j : x + (IF j % 2 = 1 THEN 1 ELSE -1) * m[1][j] *
                           IDet([i \in 1..(Len(m) - 1) |-> [k \in 1..(Len(m) - 1) |-> m[i + 1][IF k < j THEN k ELSE k + 1]]]),
                         0, [k \in 1..Len(m) |-> k])
Sorted(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
Sub(m, I, J) == LET p == Sorted(I) q == Sorted(J) IN [i \in 1..Len(p) |-> [j \in 1..Len(q) |-> m[p[i]][q[j]]]]
HasMinor(m, cols, k) == \E I \in kSubset(k, 1..Len(m)), J \in kSubset(k, cols) : IDet(Sub(m, I, J)) # 0
Rank(m, cols) == LET top == IF Len(m) < Cardinality(cols) THEN Len(m) ELSE Cardinality(cols)
                 IN CHOOSE k \in 0..top : HasMinor(m, cols, k) /\ \A q \in (k + 1)..top : ~HasMinor(m, cols, q)
ClassByRank(m, n) ==
  LET r == Rank(m, 1..n) IN
  IF Rank(m, 1..(n + 1)) > r THEN "none" ELSE IF r = n THEN "unique" ELSE "many"

------------------------------------------------------------------------------
(* by elimination with the largest pivots *)
Above(x, t) == FLt(t, FAbs(Ieee, x)) = 1
Below(x, t) == FLt(FAbs(Ieee, x), t) = 1
RECURSIVE ElimFrom(_, _, _, _, _, _)
(* rows m, of which the first y - 1 are done, and columns from x on: the class, and the rows at the end *)
ElimFrom(m, n, y, x, lo, hi) ==
  IF y > Len(m) \/ x > n
  THEN LET rest == {m[i][n + 1] : i \in y..Len(m)} IN
       [m |-> m, p |-> y - 1, c |-> IF \E v \in rest : Above(v, hi) THEN "none"
                       ELSE IF \E v \in rest : ~Below(v, lo) THEN "open"
                       ELSE IF y - 1 = n THEN "unique" ELSE "many"]
  ELSE LET p == CHOOSE i \in y..Len(m) : \A k \in y..Len(m) : FLt(FMid(FAbs(Ieee, m[i][x])), FMid(FAbs(Ieee, m[k][x]))) # 1
           v == m[p][x]
       IN IF Above(v, hi)
          THEN LET q == TLCEval([i \in 1..Len(m) |-> IF i = y THEN m[p] ELSE IF i = p THEN m[y] ELSE m[i]]) IN
               ElimFrom(TLCEval([i \in 1..Len(m) |-> IF i <= y THEN q[i]
                           ELSE LET f == FDiv(Ieee, q[i][x], v) IN
                                IF FIsZero(f) THEN q[i]
                                ELSE TLCEval([j \in 1..(n + 1) |-> IF j < x THEN q[i][j] ELSE IF j = x THEN FInt(0) ELSE FSub(Ieee, q[i][j], FMul(Ieee, f, q[y][j]))])]),
                        n, y + 1, x + 1, lo, hi)
          ELSE IF \A i \in y..Len(m) : Below(m[i][x], lo) THEN ElimFrom(m, n, y, x + 1, lo, hi)
          ELSE [m |-> m, p |-> -1, c |-> "open"]
ClassFrom(m, n, y, x, lo, hi) == ElimFrom(m, n, y, x, lo, hi).c
(* the solution of eliminated rows of a square system with a unique one *)
BackOf(m, n) ==
  FoldLeft(LAMBDA r, k : LET i == n + 1 - k IN
             <<FDiv(Ieee, FoldLeft(LAMBDA t, j : FSub(Ieee, t, FMul(Ieee, m[i][j], r[j - i])), m[i][n + 1], [j \in 1..(n - i) |-> i + j]), m[i][i])>> \o r,
           <<>>, [k \in 1..n |-> k])
(* no row and no column has two entries: then only single comparisons with the tolerance matter *)
Monomial(A) == /\ \A i \in 0..(A.r - 1) : Cardinality({j \in 0..(A.c - 1) : ~FIsZero(Mx(A, i, j))}) <= 1
               /\ \A j \in 0..(A.c - 1) : Cardinality({i \in 0..(A.r - 1) : ~FIsZero(Mx(A, i, j))}) <= 1
(* [m |-> the rows at the end, c |-> the class, p |-> the number of pivots, -1 if open] *)
Eliminated(A, b, eps) ==
  LET t == IF Monomial(A) THEN <<"0.99", "1.01">> ELSE <<"0.001", "1000">>
  IN ElimFrom(Rows(A, b), A.c, 1, 1, FMul(Ieee, eps, FLit(Ieee, t[1])), FMul(Ieee, eps, FLit(Ieee, t[2])))
ClassOf(A, b, eps) == Eliminated(A, b, eps).c

------------------------------------------------------------------------------
(* |A x - b| is within rounding; that of the elimination is relative to the rows it made. Where some rows had no pivot *)
(* (e.p < A.r) entries below the tolerance count as 0, and |A x - b| is also within what they can contribute.          *)
Solves(A, b, x, eps, e) ==
  LET mx == FoldLeft(LAMBDA y, z : IF FLt(y, FAbs(Ieee, z)) = 1 THEN FAbs(Ieee, z) ELSE y, FInt(1), A.b)
      sx == Mag(x)
      slack == IF e.p = A.r THEN FInt(0)
               ELSE IF Monomial(A) THEN FMul(Ieee, eps, FInt(2))
               ELSE FMul(Ieee, FMul(Ieee, eps, FInt(4 * (A.r + 1))), FMul(Ieee, FMul(Ieee, mx, mx), FAdd(Ieee, sx, FInt(1))))
      made == Mag(TLCEval([k \in 1..(A.r * (A.c + 1)) |->
                LET i == ((k - 1) \div (A.c + 1)) + 1
                    j == ((k - 1) % (A.c + 1)) + 1
                IN FMid(IF j > A.c THEN e.m[i][j] ELSE FMul(Ieee, e.m[i][j], x[j]))]))
      round == FMul(Ieee, FMul(Ieee, made, FInt(A.c + 1)), FLit(Ieee, "1e-14"))
  IN \A i \in 1..A.r :
       LET t == [j \in 1..A.c |-> FMul(Ieee, Mx(A, i - 1, j - 1), x[j])]
           d == FSub(Ieee, FSum(t), b[i])
           tol == FAdd(Ieee, FMul(Ieee, FAdd(Ieee, Mag(t), FAbs(Ieee, b[i])), FLit(Ieee, "1e-9")), FAdd(Ieee, slack, round))
       IN FLt(tol, FAbs(Ieee, d)) # 1

IntMat(d) == \A k \in 1..Len(d) : FIsIntStr(d[k]) /\ FMagLt(d[k], "100")
Count2(open) == IF open THEN TLCSet(2, TLCGet(2) + 1) ELSE TLCSet(1, TLCGet(1) + 1)
LinearWhy(s, A, bt, o) ==
  LET a == MVal(A)
      b == [k \in 1..Len(bt) |-> FLit(Ieee, bt[k])]
      eps == FLit(Ieee, s.cfg.eps)
      el == Eliminated(a, b, eps)
      c == IF a.r = 0 THEN "unique" ELSE IF a.r > a.c THEN "over" ELSE el.c
      ok == o.k = "ok"
      n == IF a.r = 0 THEN 0 ELSE a.c
      err(e) == o.k = "math" /\ o.e = e
      x == [k \in 1..Len(o.x) |-> FLit(Ieee, o.x[k])]
      good == Len(o.x) = n /\ (\A k \in 1..n : FFinite(x[k])) /\ Solves(a, b, x, eps, el)
  IN IF ~Count2(c = "open") THEN {} ELSE
     CASE c = "over" -> IF err(14) THEN {} ELSE {"an overdetermined system is not refused as such: " \o Show(o)}
       [] c = "none" -> IF err(12) THEN {} ELSE {"an inconsistent system is not reported as singular: " \o Show(o)}
       [] c = "many" /\ a.r = a.c -> IF err(13) THEN {} ELSE {"a system with infinitely many solutions is not reported: " \o Show(o)}
       [] c = "many" /\ ~s.cfg.indet -> IF err(11) THEN {} ELSE {"an indeterminate system is not refused: " \o Show(o)}
       [] c \in {"unique", "many"} -> IF ok /\ good THEN {} ELSE {"a solvable system gives " \o Show(o)}
       [] OTHER -> IF ok THEN (IF a.r < a.c /\ ~s.cfg.indet THEN {"an indeterminate system is not refused"} ELSE IF Len(o.x) = n /\ ((\E k \in 1..n : ~FFinite(x[k])) \/ Solves(a, b, x, eps, el)) THEN {} ELSE {"no solution: " \o Show(o)})
                   ELSE IF o.k = "math" /\ (o.e = 12 \/ (o.e = 13 /\ a.r = a.c) \/ (o.e = 11 /\ a.r < a.c /\ ~s.cfg.indet)) THEN {} ELSE {"failed with " \o Show(o)}
DoLinear(s, ev) ==
  [why |-> {w \o " for " \o Show(ev.A) \o " b " \o Show(ev.b) : w \in TLCEval(LinearWhy(s, ev.A, ev.b, ev.out))}
           \cup (IF MSame(ev.A, ev.out.A2) /\ MSame([r |-> Len(ev.b), c |-> 1, d |-> ev.b], ev.out.b2) THEN {} ELSE {"the system was changed"}),
   s |-> s]
=============================================================================
