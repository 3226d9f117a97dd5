------------------------------- MODULE MC_Linear -------------------------------
(* The algorithm of SolveLinear as a machine over rational numbers: column pivots, *)
(* skipped columns, consistency of the rest, rows moved to their pivots, back       *)
(* substitution. Checked for every small system: its outcome is the class by minors, *)
(* a vector it returns solves the system, and the class by elimination with error   *)
(* bounds (Linear.tla), which judges recorded executions, is the same.               *)
EXTENDS Linear, Rational, IOUtils
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt

R == atoi(IOEnv.R)
C == atoi(IOEnv.C)
Vals == CASE IOEnv.V = "01" -> {0, 1} [] IOEnv.V = "-12" -> {-1, 0, 1, 2} [] IOEnv.V = "-11" -> {-1, 0, 1} [] OTHER -> {0, 1, 2}
BVals == IF IOEnv.V = "01" THEN {0, 1} ELSE {0, 1, 2}

VARIABLES m0, pc, m, y, x, rank, real, out
vars == <<m0, pc, m, y, x, rank, real, out>>

Init == /\ TLCSet(1, 0) /\ TLCSet(2, 0)
        /\ \E a \in [1..R -> [1..C -> Vals]], b \in [1..R -> BVals] :
             m0 = [i \in 1..R |-> [j \in 1..(C + 1) |-> IF j <= C THEN a[i][j] ELSE b[i]]]
        /\ m = [i \in 1..R |-> [j \in 1..(C + 1) |-> QI(m0[i][j])]]
        /\ pc = "pivot" /\ y = 1 /\ x = 1 /\ rank = 0 /\ real = [i \in 1..C |-> 0] /\ out = [k |-> "?"]

MaxRow == CHOOSE i \in y..R : (\A k \in y..R : ~QGt(m[k][x], m[i][x])) /\ \A k \in y..(i - 1) : QGt(m[i][x], m[k][x])
Swap(q, i, k) == [q EXCEPT ![i] = q[k], ![k] = q[i]]

Pivot ==
  /\ pc = "pivot"
  /\ IF y > R \/ x > C THEN pc' = "rest" /\ UNCHANGED <<m, y, x, rank, real>>
     ELSE LET q == Swap(m, y, MaxRow) IN
          IF q[y][x] = Z THEN m' = q /\ x' = x + 1 /\ UNCHANGED <<pc, y, rank, real>>
          ELSE /\ real' = IF x > y THEN [real EXCEPT ![y] = x] ELSE real
               /\ rank' = y
               /\ LET p == [j \in 1..(C + 1) |-> IF j < x THEN q[y][j] ELSE QDiv(q[y][j], q[y][x])] IN
                  m' = [i \in 1..R |-> IF i < y THEN q[i] ELSE IF i = y THEN p
                          ELSE [j \in 1..(C + 1) |-> IF j < x THEN q[i][j] ELSE QSub(q[i][j], QMul(p[j], q[i][x]))]]
               /\ y' = y + 1 /\ x' = x + 1 /\ UNCHANGED pc
  /\ UNCHANGED <<m0, out>>
Rest ==
  /\ pc = "rest"
  /\ IF \E i \in (rank + 1)..R : m[i][C + 1] # Z THEN out' = [k |-> "singular"] /\ pc' = "done" ELSE out' = out /\ pc' = "place"
  /\ UNCHANGED <<m0, m, y, x, rank, real>>
(* an indeterminate system: rows are added and moved to the column of their pivot, last ones first *)
RECURSIVE MoveDown(_, _)
MoveDown(q, i) == IF i = 0 THEN q ELSE MoveDown(IF real[i] # 0 THEN Swap(q, i, real[i]) ELSE q, i - 1)
Place ==
  /\ pc = "place" /\ pc' = "back"
  /\ m' = IF R = C THEN m ELSE MoveDown([i \in 1..C |-> IF i <= R THEN m[i] ELSE [j \in 1..(C + 1) |-> Z]], C)
  /\ UNCHANGED <<m0, y, x, rank, real, out>>
RECURSIVE BackFrom(_, _)
BackFrom(r, i) == \* r holds the unknowns found so far, in their places
  IF i = 0 THEN r
  ELSE BackFrom([r EXCEPT ![i] = FoldLeft(LAMBDA t, j : QSub(t, QMul(m[i][j], r[j])), m[i][C + 1], [j \in 1..(C - i) |-> i + j])], i - 1)
Back ==
  /\ pc = "back" /\ pc' = "done"
  /\ out' = IF rank < C /\ R = C THEN [k |-> "infinite"] ELSE [k |-> IF rank < C THEN "particular" ELSE "unique", v |-> BackFrom([j \in 1..C |-> Z], C)]
  /\ UNCHANGED <<m0, m, y, x, rank, real>>
Next == Pivot \/ Rest \/ Place \/ Back
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Solved(v) == \A i \in 1..R : FoldLeft(LAMBDA t, j : QSub(t, QMul(QI(m0[i][j]), v[j])), QI(m0[i][C + 1]), [j \in 1..C |-> j]) = Z
Class == ClassByRank(m0, C)
BallClass == ClassOf([r |-> R, c |-> C, b |-> [k \in 1..(R * C) |-> FInt(m0[((k - 1) \div C) + 1][((k - 1) % C) + 1])]], [i \in 1..R |-> FInt(m0[i][C + 1])], FLit(Ieee, "1e-09"))
Right ==
  pc = "done" =>
    /\ BallClass = Class
    /\ (out.k = "singular") <=> (Class = "none")
    /\ (out.k = "infinite") <=> (Class = "many" /\ R = C)
    /\ (out.k = "particular") <=> (Class = "many" /\ R < C)
    /\ (out.k = "unique") <=> (Class = "unique")
    /\ (out.k \in {"particular", "unique"}) => Solved(out.v)
Ends == <>(pc = "done")
=============================================================================
