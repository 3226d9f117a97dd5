-------------------------------- MODULE Deriv --------------------------------
(* Differentiation, specified twice: as the textbook rules on trees (DTree) and *)
(* as truncated Taylor series of the composed functions (Jet), which needs no   *)
(* symbolic algebra. Deriv checks judge the library with Jet; MC_Deriv checks   *)
(* that both specifications agree.                                              *)
EXTENDS Expr
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC

N(s) == <<"n", s>>
RECURSIVE DTree(_, _)
DTree(e, x) ==
  LET d1 == DTree(e[2], x)
      d2 == DTree(e[3], x)
      a == e[2]
      b == e[3]
      sq(t) == <<"*", t, t>>
  IN
  IF x \notin Vars(e) THEN N("0")
  ELSE CASE e[1] = "v" -> N("1")
    [] e[1] = "pos" -> d1
    [] e[1] = "neg" -> <<"neg", d1>>
    [] e[1] = "sin" -> <<"*", <<"cos", a>>, d1>>
    [] e[1] = "cos" -> <<"*", <<"neg", <<"sin", a>>>>, d1>>
    [] e[1] = "tan" -> <<"/", d1, sq(<<"cos", a>>)>>
    [] e[1] = "asin" -> <<"/", d1, <<"sqrt", <<"-", N("1"), sq(a)>>>>>>
    [] e[1] = "acos" -> <<"neg", <<"/", d1, <<"sqrt", <<"-", N("1"), sq(a)>>>>>>>>
    [] e[1] = "atan" -> <<"/", d1, <<"+", N("1"), sq(a)>>>>
    [] e[1] = "sqrt" -> <<"/", d1, <<"*", N("2"), <<"sqrt", a>>>>>>
    [] e[1] = "log" -> <<"/", d1, a>>
    [] e[1] = "log2" -> <<"/", d1, <<"*", a, <<"log", N("2")>>>>>>
    [] e[1] = "log10" -> <<"/", d1, <<"*", a, <<"log", N("10")>>>>>>
    [] e[1] = "exp" -> <<"*", <<"exp", a>>, d1>>
    [] e[1] = "+" -> <<"+", d1, d2>>
    [] e[1] = "-" -> <<"-", d1, d2>>
    [] e[1] = "*" -> <<"+", <<"*", d1, b>>, <<"*", a, d2>>>>
    [] e[1] = "/" -> <<"/", <<"-", <<"*", d1, b>>, <<"*", a, d2>>>>, sq(b)>>
    [] e[1] = "^" ->
         IF x \notin Vars(b)
         THEN <<"*", <<"*", b, <<"^", a, <<"-", b, N("1")>>>>>>, d1>>
         ELSE IF x \notin Vars(a)
         THEN <<"*", <<"*", e, <<"log", a>>>>, d2>>
         ELSE <<"*", e, <<"+", <<"*", d2, <<"log", a>>>>, <<"/", <<"*", b, d1>>, a>>>>>>

RECURSIVE DTreeN(_, _, _)
DTreeN(e, x, n) == IF n = 0 THEN e ELSE DTreeN(DTree(e, x), x, n - 1)

------------------------------------------------------------------------------
(* Taylor coefficients c[1..k+1] of e in x at env. Every operation is soft (mode *)
(* u < 44), so a coefficient is only certain away from singular points.          *)
Zero == FInt(0)
One  == FInt(1)
Huge == FLit(48, "1e30")
Tiny == FLit(48, "1e-30")
(* magnitudes at which no intermediate product of a derivative over- or underflows *)
Tame(a) == FTag(a) = 0 /\ (FIsZero(a) \/ (FLt(FAbs(48, a), Huge) = 1 /\ FLt(Tiny, FAbs(48, a)) = 1))
Bounded(a) == FTag(a) = 0 /\ FLt(FAbs(48, a), Huge) = 1
Unsures(k) == [i \in 1..(k + 1) |-> FUnsure]
ConstJ(c, k) == [i \in 1..(k + 1) |-> IF i = 1 THEN c ELSE Zero]

RECURSIVE SumTo(_, _, _, _)      \* sum of f[i] for i in lo..hi
SumTo(u, f, lo, hi) == IF lo > hi THEN Zero
                       ELSE IF lo = hi THEN f[lo]
                       ELSE FAdd(u, f[lo], SumTo(u, f, lo + 1, hi))

JAdd(u, a, b) == [i \in 1..Len(a) |-> FAdd(u, a[i], b[i])]
JSub(u, a, b) == [i \in 1..Len(a) |-> FSub(u, a[i], b[i])]
JNeg(u, a) == [i \in 1..Len(a) |-> FNeg(u, a[i])]
JMul(u, a, b) == [n \in 1..Len(a) |-> SumTo(u, [i \in 1..n |-> FMul(u, a[i], b[n + 1 - i])], 1, n)]

(* Sequences defined by a recurrence c[n] == R(c so far, n), built left to right *)
Build(R(_, _), c, k) == FoldLeft(LAMBDA s, n : Append(s, R(s, n)), c, [i \in 1..k |-> i + 1])

JDiv(u, a, b) ==
  LET R(c, n) == FDiv(u, FSub(u, a[n], SumTo(u, [i \in 1..(n - 1) |-> FMul(u, c[i], b[n + 1 - i])], 1, n - 1)), b[1])
  IN Build(R, <<FDiv(u, a[1], b[1])>>, Len(a) - 1)
JExp(u, a) ==
  LET R(c, n) == FDiv(u, SumTo(u, [i \in 1..(n - 1) |-> FMul(u, FInt(i), FMul(u, a[i + 1], c[n - i]))], 1, n - 1), FInt(n - 1))
  IN Build(R, <<FExp(u, a[1])>>, Len(a) - 1)
JLog(u, a) ==
  LET R(c, n) == FDiv(u, FSub(u, a[n],
                    FDiv(u, SumTo(u, [i \in 1..(n - 2) |-> FMul(u, FInt(i), FMul(u, c[i + 1], a[n - i]))], 1, n - 2), FInt(n - 1))), a[1])
  IN Build(R, <<FLog(u, a[1])>>, Len(a) - 1)
JSqrt(u, a) ==
  LET R(c, n) == FDiv(u, FSub(u, a[n], SumTo(u, [i \in 2..(n - 1) |-> FMul(u, c[i], c[n + 1 - i])], 2, n - 1)),
                      FMul(u, FInt(2), c[1]))
  IN Build(R, <<FSqrt(u, a[1])>>, Len(a) - 1)
(* the pair sin, cos *)
JSinCos(u, a) ==
  LET k == Len(a) - 1
      S(c, n) == <<FDiv(u, SumTo(u, [i \in 1..(n - 1) |-> FMul(u, FInt(i), FMul(u, a[i + 1], c[n - i][2]))], 1, n - 1), FInt(n - 1)),
                   FNeg(u, FDiv(u, SumTo(u, [i \in 1..(n - 1) |-> FMul(u, FInt(i), FMul(u, a[i + 1], c[n - i][1]))], 1, n - 1), FInt(n - 1)))>>
  IN Build(S, << <<FSin(u, a[1]), FCos(u, a[1])>> >>, k)
JSin(u, a) == LET p == JSinCos(u, a) IN [i \in 1..Len(a) |-> p[i][1]]
JCos(u, a) == LET p == JSinCos(u, a) IN [i \in 1..Len(a) |-> p[i][2]]
(* y with y' = q * a' and y(0) = y0 *)
JInt(u, y0, q, a) ==
  [n \in 1..Len(a) |-> IF n = 1 THEN y0
     ELSE FDiv(u, SumTo(u, [i \in 1..(n - 1) |-> FMul(u, FInt(i), FMul(u, a[i + 1], q[n - i]))], 1, n - 1), FInt(n - 1))]
JOne(k) == ConstJ(One, k)
RECURSIVE JPowN(_, _, _)
JPowN(u, a, n) == IF n = 0 THEN JOne(Len(a) - 1) ELSE IF n = 1 THEN a ELSE JMul(u, a, JPowN(u, a, n - 1))
(* constant exponent c, base certainly not zero *)
JPowC(u, a, c) ==
  LET R(p, n) == FDiv(u, SumTo(u, [i \in 1..(n - 1) |->
                    FMul(u, FSub(u, FMul(u, c, FInt(i)), FInt(n - 1 - i)), FMul(u, a[i + 1], p[n - i]))], 1, n - 1),
                    FMul(u, FInt(n - 1), a[1]))
  IN Build(R, <<FPow(u, a[1], c)>>, Len(a) - 1)

IsSmallNat(e) == e[1] = "n" /\ FIsIntStr(e[2]) /\ FSgnStr(e[2]) >= 0 /\ FMagLt(e[2], "9")
SmallNat(e) == CHOOSE k \in 0..8 : FEqStr(e[2], ToString(k))

RECURSIVE Jet(_, _, _, _, _)
Jet(u, e, x, env, k) ==
  LET a == Jet(u, e[2], x, env, k)
      b == Jet(u, e[3], x, env, k)
      r == IF x \notin Vars(e) THEN ConstJ(Eval(u, e, env), k)
           ELSE CASE e[1] = "v" -> [i \in 1..(k + 1) |-> IF i = 1 THEN env[x] ELSE IF i = 2 THEN One ELSE Zero]
             [] e[1] = "pos" -> a
             [] e[1] = "neg" -> JNeg(u, a)
             [] e[1] = "sin" -> JSin(u, a)
             [] e[1] = "cos" -> JCos(u, a)
             [] e[1] = "tan" -> JDiv(u, JSin(u, a), JCos(u, a))
             [] e[1] = "asin" -> JInt(u, FAsin(u, a[1]), JDiv(u, JOne(k), JSqrt(u, JSub(u, JOne(k), JMul(u, a, a)))), a)
             [] e[1] = "acos" -> JInt(u, FAcos(u, a[1]), JNeg(u, JDiv(u, JOne(k), JSqrt(u, JSub(u, JOne(k), JMul(u, a, a))))), a)
             [] e[1] = "atan" -> JInt(u, FAtan(u, a[1]), JDiv(u, JOne(k), JAdd(u, JOne(k), JMul(u, a, a))), a)
             [] e[1] = "sqrt" -> JSqrt(u, a)
             [] e[1] = "log" -> JLog(u, a)
             [] e[1] = "log2" -> JDiv(u, JLog(u, a), ConstJ(FLog(u, FInt(2)), k))
             [] e[1] = "log10" -> JDiv(u, JLog(u, a), ConstJ(FLog(u, FInt(10)), k))
             [] e[1] = "exp" -> JExp(u, a)
             [] e[1] = "+" -> JAdd(u, a, b)
             [] e[1] = "-" -> JSub(u, a, b)
             [] e[1] = "*" -> JMul(u, a, b)
             [] e[1] = "/" -> JDiv(u, a, b)
             [] e[1] = "^" ->
                  IF x \notin Vars(e[3])
                  THEN IF IsSmallNat(e[3]) /\ SmallNat(e[3]) >= k + 1 THEN JPowN(u, a, SmallNat(e[3]))
                       ELSE IF FNonZero(a[1]) THEN JPowC(u, a, b[1])
                       ELSE Unsures(k)
                  ELSE IF FLt(Zero, a[1]) = 1 THEN JExp(u, JMul(u, b, JLog(u, a)))
                  ELSE Unsures(k)
             [] OTHER -> Unsures(k)
  IN IF Tame(r[1]) \/ (u = 42 /\ Bounded(r[1])) THEN r ELSE Unsures(k)

RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)

(* the n-th partial derivative in x, at env; unsure where it is not certain *)
DerivAt(u, e, x, n, env) ==
  IF x \notin Vars(e) THEN (IF n = 0 THEN Eval(u, e, env) ELSE IF FTag(Eval(u, e, env)) = 0 THEN Zero ELSE FUnsure)
  ELSE LET j == Jet(u, e, x, env, n)
       IN IF \E i \in 1..(n + 1) : FTag(j[i]) # 0 THEN FUnsure
          ELSE FMul(u, FInt(Fact(n)), j[n + 1])
(* a mixed derivative given as a list of <<variable, order>>: all but the last on the tree *)
RECURSIVE MixedTree(_, _)
MixedTree(e, vs) == IF Len(vs) = 0 THEN e ELSE MixedTree(DTreeN(e, Head(vs)[1], Head(vs)[2]), Tail(vs))
MixedAt(u, e, vs, env) ==
  LET m == Len(vs)
      t == MixedTree(e, SubSeq(vs, 1, m - 1))
  IN IF FTag(EvalLoose(e, env)) # 0 \/ ZeroPow(t, env) THEN FUnsure ELSE DerivAt(u, t, vs[m][1], vs[m][2], env)
=============================================================================
