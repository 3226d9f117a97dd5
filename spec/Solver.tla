--------------------------------- MODULE Solver ---------------------------------
(* Nonlinear systems. The two iterations are written out as recursive steps on      *)
(* points. A run is judged only as far as the point it reaches is determined: every  *)
(* comparison is decided with error bounds, and the same run with every point moved   *)
(* a little must take the same steps and end at the same place.                       *)
EXTENDS Search
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC

Jac(eqs, names, env) ==
  TLCEval([i \in 1..Len(eqs) |-> TLCEval([j \in 1..Len(names) |->
     IF names[j] \notin Vars(eqs[i]) THEN FInt(0) ELSE DerivAt(42, eqs[i], names[j], 1, env)])])
TagOfRows(J) == LET t == {TagOf(J[i]) : i \in 1..Len(J)} IN IF t \subseteq {0} THEN 0 ELSE 2
Mids(q) == TLCEval([i \in 1..Len(q) |-> FMid(q[i])])
AllFinite(q) == \A i \in 1..Len(q) : FFinite(q[i])

(* outcomes of a run: it is the number of counted iterations *)
OkAt(q, it, d) == [k |-> "ok", q |-> q, it |-> it, d |-> d]
ErrAt(e, q, it) == [k |-> "err", e |-> e, q |-> q, it |-> it]
Limit(q) == [k |-> "limit", q |-> q]
Open(w) == [k |-> "open", w |-> w]

(* p: all that does not change during a run; p.move(q) moves a point a little *)
(* the next point of a run: for the runs beside the main one, the middle moved to both sides *)
(* by multiples of the error known, different in each direction                      *)
Moved1(p, q, d, it) == TLCEval([i \in 1..Len(q) |->
   LET m == FMid(q[i])
       t == FMul(Ieee, FInt(<<1, -2, 3, -4>>[((i - 1) % 4) + 1]), FAdd(Ieee, FMul(Ieee, FAdd(Ieee, FAbs(Ieee, m), FLit(Ieee, "1e-3")), FLit(Ieee, p.delta)), FWidth(d[i])))
   IN FMid(CASE p.side = 0 -> m [] p.side = 1 -> FAdd(Ieee, m, t) [] OTHER -> FSub(Ieee, m, t))])
Zeros(p, F) == All3({Within(F[i], p.eps) : i \in 1..Len(F)})
(* the points of the real run differ from these in their last places: is F certainly not zero all the same? *)
Fat(q) == TLCEval([i \in 1..Len(q) |-> FSpread(q[i], q[i], 46)])
CertainlyOff(p, q) == LET F == EvalAll(p.u, p.eqs, EnvOf(p.names, Fat(q))) IN TagOf(F) = 0 /\ Zeros(p, F) = 0
Rows2(J, F) == TLCEval([i \in 1..Len(F) |-> TLCEval(Append(J[i], FNeg(Ieee, F[i])))])
LinearStep(p, rows, n) == ElimFrom(rows, n, 1, 1, FMul(Ieee, p.eps, FLit(Ieee, "0.001")), FMul(Ieee, p.eps, FLit(Ieee, "1000")))

(* With invalid values refused, a run ends at a start where a derivative is infinite: invalid at q, large beside it and the larger the nearer. *)
Steep(p, q, J) ==
  /\ p.u > 0
  /\ \E i \in 1..Len(J) : \E j \in 1..Len(q) :
       /\ FTag(J[i][j]) # 0
       /\ ~FFinite(DerivAt(Ieee, p.eqs[i], p.names[j], 1, EnvOf(p.names, q)))
       /\ \E h \in {<<"1e-10", "1e-8">>, <<"-1e-10", "-1e-8">>} :
            LET near(t) == [q EXCEPT ![j] = FAdd(Ieee, @, FMul(Ieee, FLit(Ieee, t), FAdd(Ieee, FInt(1), FAbs(Ieee, @))))]
                d(t) == DerivAt(42, p.eqs[i], p.names[j], 1, EnvOf(p.names, near(t)))
                c == d(h[1])
                f == d(h[2])
            IN FTag(c) = 0 /\ FTag(f) = 0 /\ FLt(FLit(Ieee, "1e3"), FAbs(Ieee, c)) = 1 /\ FLt(FMul(Ieee, FInt(3), FAbs(Ieee, f)), FAbs(Ieee, c)) = 1

RECURSIVE NewtonFrom(_, _, _)
NewtonFrom(p, q, it) ==
  LET n == Len(p.names)
      env == EnvOf(p.names, q)
      F == EvalAll(p.u, p.eqs, env)
      z == Zeros(p, F)
      J == Jac(p.eqs, p.names, env)
      e == LinearStep(p, Rows2(J, F), n)
      d == BackOf(e.m, n)
      r == VAdd(q, d)
  IN IF TagOf(F) = 1 THEN ErrAt(InvalidNumber, q, it)
     ELSE IF TagOf(F) = 2 \/ z = 2 THEN Open("values or zero test")
     ELSE IF z = 1 THEN OkAt(q, it, <<>>)
     ELSE IF it > 0 /\ ~CertainlyOff(p, q) THEN Open("zero test after rounding")
     ELSE IF it > p.max + 2 THEN Limit(q)
     ELSE IF TagOfRows(J) # 0 THEN (IF it = 0 /\ Len(F) <= n /\ Steep(p, q, J) THEN ErrAt(InvalidNumber, q, it) ELSE Open("Jacobian"))
     ELSE IF Len(F) > n THEN ErrAt(14, q, it)
     ELSE IF ~AllFinite(F) \/ e.c = "open" THEN Open("values or elimination")
     ELSE IF e.c = "none" THEN ErrAt(12, q, it)
     ELSE IF e.c = "many" THEN (IF Len(F) = n THEN ErrAt(13, q, it) ELSE IF ~p.indet THEN ErrAt(11, q, it) ELSE Open("particular solution"))
     ELSE IF ~AllFinite(r) THEN Open("not finite")
     ELSE LET t == NewtonFrom(p, Moved1(p, r, d, it), it + 1)
          IN IF t.k = "ok" /\ t.d = <<>> THEN [t EXCEPT !.d = d] ELSE t

(* Levenberg-Marquardt: missing equations are 0 = 0. One counted iteration is a step taken or refused. *)
NormalMat(J, n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> FDot([k \in 1..Len(J) |-> J[k][i]], [k \in 1..Len(J) |-> J[k][j]])])])
RECURSIVE Step0(_, _, _, _, _, _, _), ArmijoFrom(_, _, _, _, _, _), LMFrom(_, _, _)
ArmijoFrom(p, q, d, F, Dd, k) ==
  LET c == ArmijoAt(p.u, p.eqs, p.names, q, d, F, Dd, k) IN
  IF c = 1 THEN (IF k > 60 THEN -1 ELSE ArmijoFrom(p, q, d, F, Dd, k + 1)) ELSE IF c = 0 THEN k ELSE IF c = 3 THEN -2 ELSE -1
(* from q with values F and Jacobian Jq; the step is taken with the Jacobian J of the point tried last *)
Step0(p, q, F, Jq, J, mu, it) ==
  LET n == Len(p.names)
      JtF == TLCEval([i \in 1..n |-> FDot([k \in 1..Len(J) |-> J[k][i]], F)])
      JtJ == NormalMat(J, n)
      e == LinearStep(p, TLCEval([i \in 1..n |-> TLCEval([j \in 1..(n + 1) |-> IF j = n + 1 THEN FNeg(Ieee, JtF[i]) ELSE IF i = j THEN FAdd(Ieee, JtJ[i][j], mu) ELSE JtJ[i][j]])]), n)
      b == TLCEval(BackOf(e.m, n))
      d == Mids(b)
      Dd == TLCEval([i \in 1..n |-> FDot([k \in 1..n |-> Jq[k][i]], d)])
      k == ArmijoFrom(p, q, d, F, Dd, 0)
      r == VAdd(q, VScale(d, Halved(k)))
      G == EvalAll(p.u, p.eqs, EnvOf(p.names, Mids(r)))
      less == FLt(SqNorm(G), SqNorm(F))
  IN IF it > p.max + 2 THEN Limit(q)
     ELSE IF TagOfRows(J) # 0 THEN Open("Jacobian")
     ELSE IF e.c # "unique" \/ ~AllFinite(d) THEN Open("elimination")
     ELSE IF k = -2 THEN ErrAt(InvalidNumber, q, it)
     ELSE IF k = -1 \/ TagOf(G) # 0 \/ ~AllFinite(G) \/ less = 2 THEN Open("search or descent")
     ELSE IF less = 0 THEN Step0(p, q, F, Jq, Jac(p.eqs, p.names, EnvOf(p.names, Mids(r))), FMid(FMul(Ieee, mu, FInt(10))), it + 1)
     ELSE LET t == LMFrom(p, Moved1(p, r, b, it), it + 1)
          IN IF t.k = "ok" /\ t.d = <<>> THEN [t EXCEPT !.d = b] ELSE t
LMFrom(p, q, it) ==
  LET n == Len(p.names)
      env == EnvOf(p.names, q)
      F == EvalAll(p.u, p.eqs, env)
      z == Zeros(p, F)
      J == Jac(p.eqs, p.names, env)
  IN IF TagOf(F) = 1 THEN ErrAt(InvalidNumber, q, it)
     ELSE IF TagOf(F) = 2 \/ z = 2 THEN Open("values or zero test")
     ELSE IF z = 1 THEN OkAt(q, it, <<>>)
     ELSE IF it > 0 /\ ~CertainlyOff(p, q) THEN Open("zero test after rounding")
     ELSE IF p.rows > n THEN ErrAt(14, q, it)
     ELSE IF p.rows < n /\ ~p.indet THEN ErrAt(11, q, it)
     ELSE IF TagOfRows(J) # 0 \/ ~AllFinite(F) THEN (IF it = 0 /\ Steep(p, q, J) THEN ErrAt(InvalidNumber, q, it) ELSE Open("Jacobian"))
     ELSE Step0(p, q, F, J, J, FLit(Ieee, "1e-5"), it)

Run(p, q) == IF p.lm THEN LMFrom(p, q, 0) ELSE NewtonFrom(p, q, 0)
SameRun(t, v) ==
  /\ t.k = v.k
  /\ t.k # "open" => \A i \in 1..Len(t.q) : FLt(FAbs(Ieee, FSub(Ieee, t.q[i], v.q[i])), FMul(Ieee, FLit(Ieee, "1e-4"), FAdd(Ieee, FInt(1), FAbs(Ieee, t.q[i])))) = 1
  /\ t.k \in {"ok", "err"} => t.it = v.it
  /\ t.k = "err" => t.e = v.e
(* what a run must come to: the outcome, with the distance in which its point is known *)
Judged(p, q) ==
  LET t == Run([p EXCEPT !.side = 0], q) IN
  IF t.k = "open" THEN t
  ELSE LET v == Run([p EXCEPT !.side = 1], q)
           w == Run([p EXCEPT !.side = 2], q)
       IN IF ~SameRun(t, v) \/ ~SameRun(t, w) THEN Open("runs part")
          ELSE IF t.k # "ok" \/ t.it = 0 THEN t
          ELSE t @@ [tol |-> [i \in 1..Len(q) |->
                 LET a == FAbs(Ieee, FSub(Ieee, v.q[i], t.q[i]))
                     b == FAbs(Ieee, FSub(Ieee, w.q[i], t.q[i]))
                     one == FAdd(Ieee, FInt(1), FAbs(Ieee, t.q[i]))
                 IN FAdd(Ieee, FMul(Ieee, FLit(Ieee, "1e-10"), one), FMul(Ieee, FInt(200), FAdd(Ieee, a, b)))]]

(* the point o reports is the point of the run, within tol and what the last step leaves open, as *)
(* every point of residual below eps will do                                        *)
AtPoint(t, names, eps, o) ==
  \A i \in 1..Len(names) :
    LET v == FLit(Ieee, o.values[CHOOSE k \in 1..Len(o.names) : o.names[k] = names[i]])
        last == FAbs(Ieee, FMid(t.d[i]))
        some == FMul(Ieee, FInt(1000), eps)
        free == FAdd(Ieee, FAdd(Ieee, t.tol[i], IF FLt(last, some) = 1 THEN last ELSE some), FMul(Ieee, FInt(4), FWidth(t.d[i])))
    IN FLt(free, FAbs(Ieee, FSub(Ieee, v, t.q[i]))) # 1

RECURSIVE CodesLt(_, _)
CodesLt(a, b) == b # <<>> /\ (a = <<>> \/ a[1] < b[1] \/ (a[1] = b[1] /\ CodesLt(Tail(a), Tail(b))))
InOrder(S) == SortSeq(SetToSeq(S), LAMBDA x, y : CodesLt(StrCodes(x), StrCodes(y)))
(* the unknowns in their order: that of the table; else that of the solution, which is free, and sorted when there is none *)
NamesOf(ev, o) ==
  LET all == UNION {Vars(e) : e \in Range(ev.eqs)}
  IN IF "tab" \in DOMAIN ev THEN [i \in 1..Len(ev.tab) |-> ev.tab[i][1]]
     ELSE IF o.k = "ok" /\ Range(o.names) = all /\ Len(o.names) = Cardinality(all) THEN o.names ELSE InOrder(all)
SolveWhy(s, ev, o) ==
  LET ns == NamesOf(ev, o)
      n == Len(ns)
      starts == [i \in 1..n |-> IF "tab" \in DOMAIN ev THEN ev.tab[i][2] ELSE s.cfg.init]
      q == TLCEval([i \in 1..n |-> FLit(Ieee, starts[i])])
      lm == CASE ev.m = "nr" -> FALSE [] ev.m = "lm" -> TRUE [] OTHER -> s.cfg.method = 1
      m == Len(ev.eqs)
      eps == FLit(Ieee, s.cfg.eps)
      eqs == IF lm /\ m < n THEN ev.eqs \o [i \in 1..(n - m) |-> <<"n", "0">>] ELSE ev.eqs
      p == [names |-> ns, eqs |-> eqs, rows |-> m, u |-> U(s), eps |-> eps, max |-> s.cfg.max, indet |-> s.cfg.indet, lm |-> lm, side |-> 0,
            delta |-> IF FMagLt(s.cfg.eps, "5e-11") THEN "1e-14" ELSE "1e-12"]
      odd == \E e \in Range(ev.eqs) : AnyBits(e) \/ ~(Vars(e) \subseteq Range(ns))
      t == IF odd THEN Open("outside") ELSE Judged(p, q)
      ok == o.k = "ok"
      at == [x \in Range(o.names) |-> FLit(Ieee, o.values[CHOOSE k \in 1..Len(o.names) : o.names[k] = x])]
      (* whatever the run: a solution satisfies the equations, with the tolerance the library compares with *)
      sound == IF ~ok THEN {}
               ELSE (IF o.n = n /\ Range(o.names) = Range(ns) /\ Len(o.names) = n /\ Len(o.values) = n /\ ("tab" \in DOMAIN ev => o.names = ns) THEN {} ELSE {"the unknowns of the solution are " \o Show(o.names)})
                 \cup (IF \A i \in 1..Len(o.values) : FFiniteStr(o.values[i]) THEN {} ELSE {"a value of the solution is not finite: " \o Show(o.values)})
                 \cup (IF \A x \in Range(o.names) : \A i \in 1..Len(o.iter) : o.iter[i][1] = x => FEqStr(o.iter[i][2], o.values[CHOOSE k \in 1..Len(o.names) : o.names[k] = x]) THEN {} ELSE {"the table is not consistent"})
                 \cup UNION {IF ~(Vars(ev.eqs[i]) \subseteq Range(o.names)) THEN {}
                             ELSE LET b == Eval(U(s), ev.eqs[i], at)
                                      big == FLt(FMul(Ieee, eps, FLit(Ieee, "1.000001")), FAbs(Ieee, b))
                                  IN IF FTag(b) = 1 \/ big = 1 \/ (FTag(b) = 0 /\ ~FFinite(b)) \/ o.res[i].k # "ok" THEN {"equation " \o ToString(i) \o " is not satisfied by " \o Show(o.values) \o " but is " \o FShow(b)} ELSE {}
                             : i \in 1..m}
      settled(why) == IF t.it <= s.cfg.max THEN why ELSE IF t.it = s.cfg.max + 1 /\ o.k = "runtime" THEN {} ELSE IF t.it = s.cfg.max + 1 THEN why
                      ELSE IF o.k = "runtime" THEN {} ELSE {"the limit of " \o ToString(s.cfg.max) \o " iterations is not kept, " \o ToString(t.it) \o " are needed: " \o Show(o)}
      need == CASE t.k = "open" -> (IF ok \/ o.k = "runtime" \/ (o.k = "math" /\ o.e \in {0, 11, 12, 13, 14} /\ (o.e = 0 => s.cfg.throw) /\ (o.e = 11 => m < n /\ ~s.cfg.indet) /\ (o.e = 14 => m > n)) THEN {} ELSE {"failed with " \o Show(o)})
                [] t.k = "limit" -> IF o.k = "runtime" THEN {} ELSE {"the limit of " \o ToString(s.cfg.max) \o " iterations is not kept: " \o Show(o)}
                [] t.k = "err" -> settled(IF o.k = "math" /\ o.e = t.e THEN {} ELSE {"should fail with error " \o ToString(t.e) \o ": " \o Show(o)})
                [] t.k = "ok" /\ t.it = 0 -> IF ok /\ \A i \in 1..n : FEqStr(o.values[CHOOSE k \in 1..Len(o.names) : o.names[k] = ns[i]], starts[i]) THEN {} ELSE {"the initial values are a solution and not returned: " \o Show(o)}
                [] t.k = "ok" -> settled(IF ~ok THEN {"the iteration finds a solution and the solver does not: " \o Show(o)}
                                         ELSE IF sound # {} \/ AtPoint(t, ns, eps, o) THEN {} ELSE {"the iteration reaches " \o Show([i \in 1..n |-> FShow(t.q[i])]) \o " and the solver " \o Show(o.values) \o " for " \o Show(ns)})
  IN IF Count2(t.k = "open") THEN sound \cup need ELSE {}
DoSolve(s, ev) ==
  [why |-> {w \o " [" \o Show(ev.eqs) \o "]" : w \in TLCEval(SolveWhy(s, ev, ev.out))} \cup (IF ev.out.tabkept /\ ev.out.eqskept THEN {} ELSE {"the equations or the table were changed"}),
   s |-> s]
=============================================================================
