--------------------------------- MODULE Matrix ---------------------------------
(* Numeric matrices and vectors. An observed matrix is [r, c, d] with the entries  *)
(* of d row by row as texts; its value v = [r, c, b] has balls. Sums may be added  *)
(* up in any order, so they are only known up to rounding of their largest part.   *)
EXTENDS System
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE FiniteSetsExt

Ieee == -48
MVal(m) == [r |-> m.r, c |-> m.c, b |-> [i \in 1..Len(m.d) |-> FLit(Ieee, m.d[i])]]
Mx(v, i, j) == v.b[i * v.c + j + 1]                              \* zero-based
MGen(r, c, F(_, _)) == [r |-> r, c |-> c, b |-> [k \in 1..(r * c) |-> F((k - 1) \div c, (k - 1) % c)]]
Column(q) == [r |-> Len(q), c |-> 1, b |-> q]
FSum(q) == FSpread(FoldLeft(LAMBDA x, y : FAdd(Ieee, x, y), FInt(0), q),
                   FoldLeft(LAMBDA x, y : FAdd(Ieee, x, FAbs(Ieee, y)), FInt(0), q), 47)
Mag(q) == FoldLeft(LAMBDA x, y : FAdd(Ieee, x, FAbs(Ieee, y)), FInt(0), q)
FDot(p, q) == FSum([i \in 1..Len(p) |-> FMul(Ieee, p[i], q[i])])
RowOf(v, i) == [k \in 1..v.c |-> Mx(v, i, k - 1)]
ColOf(v, j) == [k \in 1..v.r |-> Mx(v, k - 1, j)]

MHas(v, o) == o.r = v.r /\ o.c = v.c /\ Len(o.d) = Len(v.b) /\ \A k \in 1..Len(v.b) : FHas(Ieee, v.b[k], o.d[k])
SeqHas(q, o) == Len(q) = Len(o) /\ \A k \in 1..Len(q) : FHas(Ieee, q[k], o[k])
MSame(m, o) == o.r = m.r /\ o.c = m.c /\ Len(m.d) = Len(o.d) /\ \A k \in 1..Len(m.d) : FSame(m.d[k], o.d[k]) \/ FEqStr(m.d[k], o.d[k])

MZip(op, a, b) == [a EXCEPT !.b = [k \in 1..Len(a.b) |-> App2(Ieee, op, a.b[k], b.b[k])]]
MScale(a, x) == [a EXCEPT !.b = [k \in 1..Len(a.b) |-> FMul(Ieee, a.b[k], x)]]
MNeg(a) == [a EXCEPT !.b = [k \in 1..Len(a.b) |-> FNeg(Ieee, a.b[k])]]
MMul(a, b) == MGen(a.r, b.c, LAMBDA i, j : FDot(RowOf(a, i), ColOf(b, j)))
MTr(a) == MGen(a.c, a.r, LAMBDA i, j : Mx(a, j, i))
MSwapRow(a, p, q) == MGen(a.r, a.c, LAMBDA i, j : Mx(a, IF i = p THEN q ELSE IF i = q THEN p ELSE i, j))
MSwapCol(a, p, q) == MGen(a.r, a.c, LAMBDA i, j : Mx(a, i, IF j = p THEN q ELSE IF j = q THEN p ELSE j))
MResize(a, r, c) == MGen(r, c, LAMBDA i, j : IF i < a.r /\ j < a.c THEN Mx(a, i, j) ELSE FInt(0))
MOnes(n) == MGen(n, n, LAMBDA i, j : FInt(IF i = j THEN 1 ELSE 0))
MFill(r, c, x) == MGen(r, c, LAMBDA i, j : x)
MSet(a, p, q, x) == MGen(a.r, a.c, LAMBDA i, j : IF i = p /\ j = q THEN x ELSE Mx(a, i, j))
MSetRow(a, p, from, x) == MGen(a.r, a.c, LAMBDA i, j : IF i = p /\ j >= from THEN x ELSE Mx(a, i, j))
MSetCol(a, p, from, x) == MGen(a.r, a.c, LAMBDA i, j : IF j = p /\ i >= from THEN x ELSE Mx(a, i, j))

(* determinants by expansion along the first row; the magnitude is that of the permanent *)
Skip1(k, p) == IF k < p THEN k ELSE k + 1
Minor(a, p, q) == MGen(a.r - 1, a.c - 1, LAMBDA i, j : Mx(a, Skip1(i, p), Skip1(j, q)))
RECURSIVE MDet(_), MPerm(_)
MDet(a) ==
  IF a.r = 1 THEN a.b[1]
  ELSE FoldLeft(LAMBDA x, j : LET t == FMul(Ieee, Mx(a, 0, j), MDet(Minor(a, 0, j)))
                              IN IF j % 2 = 0 THEN FAdd(Ieee, x, t) ELSE FSub(Ieee, x, t),
                FInt(0), [k \in 1..a.c |-> k - 1])
MPerm(a) ==
  IF a.r = 1 THEN FAbs(Ieee, a.b[1])
  ELSE FoldLeft(LAMBDA x, j : FAdd(Ieee, x, FMul(Ieee, FAbs(Ieee, Mx(a, 0, j)), MPerm(Minor(a, 0, j)))), FInt(0), [k \in 1..a.c |-> k - 1])
Det(a) == IF a.r = 0 THEN FInt(0) ELSE FSpread(MDet(a), MPerm(a), 46)
Lead(a, n) == MGen(n, n, LAMBDA i, j : Mx(a, i, j))
Adj(a) == IF a.r = 1 THEN MGen(1, 1, LAMBDA i, j : FInt(1))
          ELSE MGen(a.r, a.c, LAMBDA i, j : LET d == Det(Minor(a, j, i)) IN IF (i + j) % 2 = 0 THEN d ELSE FNeg(Ieee, d))

(* three-valued conjunction: 1 certainly, 0 certainly not, 2 undecided *)
All3(S) == IF 0 \in S THEN 0 ELSE IF 2 \in S THEN 2 ELSE 1
Not3(x) == IF x = 2 THEN 2 ELSE 1 - x
Agrees(x, b) == x = 2 \/ (x = 1) = b
(* |x| < eps at a boundary that depends on rounding is undecided; exactly on it, the comparison is open *)
Within(x, eps) == LET a == FAbs(Ieee, x) IN
  IF FLt(a, eps) = 1 THEN 1 ELSE IF FLt(eps, a) = 1 THEN 0 ELSE IF FLt(a, eps) = 0 /\ FLt(eps, a) = 0 /\ FTag(a) = 0 /\ ~FFinite(a) THEN 0 ELSE 2

------------------------------------------------------------------------------
(* the text of a matrix: [a, b\n c, d]\n *)
RECURSIVE Cut(_, _), Bare(_)
Cut(w, sep) == \* pieces of w between occurrences of the character sep
  LET at == {i \in 1..Len(w) : w[i] = sep} IN
  IF at = {} THEN <<w>> ELSE LET i == Min(at) IN <<SubSeq(w, 1, i - 1)>> \o Cut(SubSeq(w, i + 1, Len(w)), sep)
Bare(w) == IF w # <<>> /\ w[1] = 32 THEN Bare(Tail(w)) ELSE IF w # <<>> /\ w[Len(w)] = 32 THEN Bare(SubSeq(w, 1, Len(w) - 1)) ELSE w
Pieces(w) == \* rows of entries
  LET rows == Cut(SubSeq(w, 2, Len(w) - 2), 10) IN [i \in 1..Len(rows) |-> LET c == Cut(rows[i], 44) IN [j \in 1..Len(c) |-> Bare(c[j])]]
Framed(w) == Len(w) >= 3 /\ w[1] = 91 /\ w[Len(w) - 1] = 93 /\ w[Len(w)] = 10
NumTextOk(t, x) == DecNear(CodesToStr(t), x, "1e-16", "1e-15")
MStrOk(m, w) ==
  IF Len(m.d) = 0 THEN w = <<91, 93, 10>>
  ELSE Framed(w) /\ LET p == Pieces(w) IN
       /\ Len(p) = m.r /\ \A i \in 1..m.r : Len(p[i]) = m.c
       /\ \A i \in 1..m.r, j \in 1..m.c : ~FFiniteStr(m.d[(i - 1) * m.c + j]) \/ NumTextOk(p[i][j], m.d[(i - 1) * m.c + j])

------------------------------------------------------------------------------
MatWhy(s, ev, o) ==
  LET A == MVal(ev.A)
      B == MVal(ev.B)
      x == FLit(Ieee, ev.x)
      eps == FLit(Ieee, s.cfg.eps)
      i == ev.i
      j == ev.j
      f == ev.f
      m(v) == IF o.k = "ok" /\ MHas(v, o.m) THEN {} ELSE {f \o " gives " \o Show(o) \o " for " \o Show(ev)}
      num(v) == IF o.k = "ok" /\ FHas(Ieee, v, o.s) THEN {} ELSE {f \o " gives " \o Show(o) \o " expected " \o FShow(v) \o " for " \o Show(ev)}
      bool(t) == IF o.k = "ok" /\ Agrees(t, o.b) THEN {} ELSE {f \o " gives " \o Show(o) \o " for " \o Show(ev)}
      yes(c) == IF o.k = "ok" /\ c THEN {} ELSE {f \o " gives " \o Show(o) \o " for " \o Show(ev)}
      abs == [k \in 1..Len(A.b) |-> FAbs(Ieee, A.b[k])]
      (* the greatest or least of the numbers q, some of which o.s must be *)
      pick(q, ge) == yes((\E k \in 1..Len(q) : FHas(Ieee, q[k], o.s))
                         /\ \A k \in 1..Len(q) : LET z == FLit(Ieee, o.s) IN IF ge THEN FLt(z, q[k]) # 1 ELSE FLt(q[k], z) # 1)
      less == All3({FLt(A.b[k], B.b[k]) : k \in 1..Len(A.b)})
  IN CASE f \in {"add", "addeq", "vadd"} -> m(MZip("+", A, B))
       [] f \in {"sub", "vsub"} -> m(MZip("-", A, B))
       [] f \in {"neg", "vneg"} -> m(MNeg(A))
       [] f \in {"scale", "lscale", "vscale", "vlscale"} -> m(MScale(A, x))
       [] f \in {"mul", "vasmat"} -> m(MMul(A, B))
       [] f = "tr" -> m(MTr(A))
       [] f = "row" -> yes(SeqHas(SubSeq(RowOf(A, i), j + 1, A.c), o.l))
       [] f = "col" -> yes(SeqHas(SubSeq(ColOf(A, i), j + 1, A.r), o.l))
       [] f = "setrow" -> m(MSetRow(A, i, j, x))
       [] f = "setcol" -> m(MSetCol(A, i, j, x))
       [] f = "swaprow" -> m(MSwapRow(A, i, j))
       [] f = "swapcol" -> m(MSwapCol(A, i, j))
       [] f = "resize" -> m(MResize(A, i, j))
       [] f = "vresize" -> m(MResize(A, i, 1))
       [] f = "zero" -> m(MFill(A.r, A.c, FInt(0)))
       [] f = "ones" -> m(MOnes(A.r))
       [] f = "setvalue" -> m(MFill(A.r, A.c, x))
       [] f = "value" -> num(Mx(A, i, j)) \cup m(MSet(A, i, j, x))
       [] f = "vat" -> num(Mx(A, i, 0)) \cup m(MSet(A, i, 0, x))
       [] f \in {"copy", "vinit"} -> m(A)
       [] f = "vfill" -> m(MFill(i, 1, x))
       [] f = "fill" -> m(MFill(i, j, x))
       [] f = "norm2" -> num(FDot(A.b, A.b))
       [] f = "dot" -> num(FDot(A.b, B.b))
       [] f = "norminf" -> pick(abs, TRUE)
       [] f = "normneginf" -> pick(abs, FALSE)
       [] f = "min" -> pick(A.b, FALSE)
       [] f = "eqnum" -> bool(All3({Within(FSub(Ieee, A.b[k], x), eps) : k \in 1..Len(A.b)}))
       [] f = "eqmat" -> bool(All3({Within(FSub(Ieee, A.b[k], B.b[k]), eps) : k \in 1..Len(A.b)}))
       [] f = "iszero" -> bool(All3({Within(A.b[k], eps) : k \in 1..Len(A.b)}))
       [] f \in {"allless", "vless"} -> bool(less)
       [] f = "vmul" -> m(MZip("*", A, B))
       [] f \in {"eachdiv", "vdiv"} -> m(MZip("/", A, B))
       [] f = "maxabsrow" -> yes(o.i \in i..j /\ \A k \in i..j : FLt(FAbs(Ieee, Mx(A, o.i, ev.col)), FAbs(Ieee, Mx(A, k, ev.col))) # 1)
       [] f = "tovec" -> IF A.c = 1 THEN m(A) ELSE IF o.k = "runtime" THEN {} ELSE {"a matrix became a vector"}
       [] f = "str" -> yes(o.strsame /\ MStrOk(ev.A, o.str))
       [] f = "det" -> num(Det(Lead(A, i)))
       [] f = "adj" -> m(Adj(A))
       [] f = "inv" -> LET d == Det(A) sing == Not3(FLt(eps, FAbs(Ieee, d))) IN
            IF o.k = "ok" THEN (IF sing = 1 THEN {"a singular matrix was inverted: " \o Show(ev.A)}
                                ELSE IF sing = 2 THEN {} ELSE LET adj == Adj(A) IN m(MGen(A.r, A.c, LAMBDA p, q : FDiv(Ieee, Mx(adj, p, q), d))))
            ELSE IF o.k = "math" /\ o.e = 12 /\ sing # 0 THEN {} ELSE {"inversion refused: " \o Show(ev.A)}
       [] f = "pd" -> LET n3 == {FLt(FInt(0), Det(Lead(A, n))) : n \in 1..A.r} IN bool(All3(n3))
DoMat(s, ev) ==
  LET o == ev.out IN
  [why |-> MatWhy(s, ev, o)
           \cup (IF o.k # "ok" \/ (MSame(ev.A, o.A2) /\ ("B" \notin DOMAIN ev \/ MSame(ev.B, o.B2))) THEN {} ELSE {ev.f \o " changed an operand"}),
   s |-> s]
=============================================================================
