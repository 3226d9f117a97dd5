-------------------------------- MODULE MC_Matrix --------------------------------
(* Determinant and inverse by elimination over rational numbers, as a machine, for     *)
(* every matrix of a small set. What recorded executions are judged with (expansion by  *)
(* cofactors with error bounds, Matrix.tla) agrees with it and with the definition by     *)
(* permutations, and obeys the laws of matrix algebra; positive leading minors are what    *)
(* makes x'Ax positive: without them a vector with x'Ax <= 0 exists, and with them all      *)
(* pivots are positive. MUT plants a fault in the machine.                                  *)
EXTENDS Matrix, Rational, IOUtils
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt

DIM == atoi(IOEnv.N)
Vals == CASE IOEnv.V = "-11" -> -1..1 [] IOEnv.V = "-22" -> -2..2 [] OTHER -> {-1, 0, 2}
SYM == IOEnv.SYM = "1"
MUT == IF "MUT" \in DOMAIN IOEnv THEN IOEnv.MUT ELSE ""
I == 1..DIM

VARIABLES A, m, k, det, out
vars == <<A, m, k, det, out>>
Init == /\ A \in [I -> [I -> Vals]]
        /\ (SYM => \A i, j \in I : A[i][j] = A[j][i])
        /\ m = [i \in I |-> [j \in 1..(2 * DIM) |-> QI(IF j <= DIM THEN A[i][j] ELSE IF j - DIM = i THEN 1 ELSE 0)]]
        /\ k = 1 /\ det = QI(1) /\ out = "?"
Step ==
  /\ out = "?" /\ k <= DIM
  /\ LET cand == {i \in k..DIM : m[i][k] # Z}
         p == CHOOSE i \in cand : \A j \in cand : i <= j
         m1 == [m EXCEPT ![k] = m[p], ![p] = m[k]]
         piv == m1[k][k]
         unit == [j \in 1..(2 * DIM) |-> QDiv(m1[k][j], piv)]
     IN IF cand = {} THEN det' = Z /\ out' = "singular" /\ UNCHANGED <<m, k>>
        ELSE /\ det' = QMul(det, IF p = k \/ MUT = "sign" THEN piv ELSE QMul(piv, QI(-1)))
             /\ m' = [i \in I |-> IF i = k THEN unit
                                  ELSE IF MUT = "below" /\ i < k THEN m1[i]
                                  ELSE [j \in 1..(2 * DIM) |-> QSub(m1[i][j], QMul(m1[i][k], unit[j]))]]
             /\ k' = k + 1 /\ out' = (IF k = DIM THEN "done" ELSE "?")
  /\ UNCHANGED A
Spec == Init /\ [][Step]_vars

(* the same matrix as the judging operators see it *)
Ball(q) == FDiv(Ieee, FInt(q[1]), FInt(q[2]))
V == MGen(DIM, DIM, LAMBDA i, j : FInt(A[i + 1][j + 1]))
NearQ(b, q) == LET d == FSub(Ieee, b, Ball(q)) IN FTag(b) = 0 /\ FLt(FAbs(Ieee, d), FLit(Ieee, "1e-9")) = 1
EqM(a, b) == a.r = b.r /\ a.c = b.c /\ \A i \in 1..Len(a.b) : FMeet(40, a.b[i], b.b[i])

Sign(p) == IF Cardinality({<<i, j>> \in I \X I : i < j /\ p[i] > p[j]}) % 2 = 0 THEN 1 ELSE -1
Perms == {p \in [I -> I] : \A i, j \in I : i # j => p[i] # p[j]}
RECURSIVE Times(_, _)
Times(p, i) == IF i > DIM THEN 1 ELSE A[i][p[i]] * Times(p, i + 1)
Leibniz == FoldSet(LAMBDA p, s : s + (Sign(p) * Times(p, 1)), 0, Perms)

DetAgrees == out # "?" => /\ det = QI(Leibniz)
                          /\ NearQ(Det(V), det)
                          /\ (out = "singular") = (Leibniz = 0)
InverseAgrees == out = "done" =>
  LET a == Adj(V) d == Det(V) IN
  \A i, j \in I : NearQ(FDiv(Ieee, Mx(a, i - 1, j - 1), d), m[i][DIM + j])
Algebra == out # "?" =>
  LET B == MTr(V) a == Adj(V) IN
  /\ FMeet(40, Det(V), Det(MTr(V)))
  /\ EqM(MMul(V, a), MScale(MOnes(DIM), Det(V)))
  /\ EqM(MTr(MMul(V, a)), MMul(MTr(a), MTr(V)))
  /\ FMeet(40, Det(MMul(V, MTr(V))), FMul(Ieee, Det(V), Det(V)))
  /\ (DIM > 1 => FMeet(40, Det(MSwapRow(V, 0, DIM - 1)), FNeg(Ieee, Det(V))) /\ FMeet(40, Det(MSwapCol(V, 0, 1)), FNeg(Ieee, Det(V))))
  /\ EqM(MMul(V, MOnes(DIM)), V) /\ EqM(MZip("-", MZip("+", V, a), a), V)

(* definiteness *)
Form(x, n) == FoldSet(LAMBDA p, s : s + (x[p[1]] * x[p[2]] * A[p[1]][p[2]]), 0, (1..n) \X (1..n))
MinorPos(n) == FLt(FInt(0), Det(Lead(V, n)))
Box == [I -> -2..2]
Definite == (SYM /\ out = "?" /\ k = 1) =>
  LET d == {n \in I : MinorPos(n) # 1} IN
  /\ \A n \in I : MinorPos(n) # 2 \/ NearQ(Det(Lead(V, n)), Z)
  /\ d = {} => \A x \in Box : (\E i \in I : x[i] # 0) => Form(x, DIM) > 0
  /\ d # {} => LET n == Min(d) a == Adj(Lead(V, n)) IN
       \* the last column of the adjugate of the first block that fails
       LET x == [i \in 1..n |-> CHOOSE t \in -60..60 : FLt(FAbs(Ieee, FSub(Ieee, Mx(a, i - 1, n - 1), FInt(t))), FLit(Ieee, "1e-6")) = 1] IN
       (\E i \in 1..n : x[i] # 0) /\ Form(x, n) <= 0
=============================================================================
