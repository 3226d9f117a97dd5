--------------------------------- MODULE Search ---------------------------------
(* Line searches. The Armijo search halves its step until the sum of squares       *)
(* |f(x + a d)|^2 is not greater than |f(x) + g a D d|^2 with g = 0.4, D the         *)
(* derivative it is given, transposed.                                              *)
EXTENDS Linear
LOCAL INSTANCE SequencesExt

EnvOf(names, q) == TLCEval([x \in Range(names) |-> q[CHOOSE i \in 1..Len(names) : names[i] = x]])
EvalAll(u, eqs, env) == TLCEval([i \in 1..Len(eqs) |-> Eval(u, eqs[i], env)])
TagOf(q) == IF \E i \in 1..Len(q) : FTag(q[i]) = 1 THEN 1 ELSE IF \E i \in 1..Len(q) : FTag(q[i]) = 2 THEN 2 ELSE 0
SqNorm(q) == FDot(q, q)
VAdd(p, q) == TLCEval([i \in 1..Len(p) |-> FAdd(Ieee, p[i], q[i])])
VScale(p, x) == TLCEval([i \in 1..Len(p) |-> FMul(Ieee, p[i], x)])
MulVec(rows, d) == TLCEval([i \in 1..Len(rows) |-> FDot(rows[i], d)])
RECURSIVE Halved(_)
Halved(k) == IF k = 0 THEN FInt(1) ELSE FMul(Ieee, Halved(k - 1), FLit(Ieee, "0.5"))

(* at step a: 1 descends not enough, go on; 0 enough, stop; 2 either; 3 the values are invalid; 4 they may be *)
Descent(l, r) == IF TagOf(l) = 1 \/ TagOf(r) = 1 THEN 3 ELSE IF TagOf(l) = 2 \/ TagOf(r) = 2 THEN 4 ELSE FLt(SqNorm(r), SqNorm(l))
(* Dd is the derivative, transposed, times d *)
ArmijoAt(u, eqs, names, x, d, f0, Dd, k) ==
  LET a == Halved(k)
      l == EvalAll(u, eqs, EnvOf(names, VAdd(x, VScale(d, a))))
      r == VAdd(f0, VScale(Dd, FMul(Ieee, a, FLit(Ieee, "0.4"))))
  IN Descent(l, r)

ArmijoWhy(s, ev, o) ==
  LET u == U(s)
      x == TLCEval([i \in 1..Len(ev.x) |-> FLit(Ieee, ev.x[i])])
      d == TLCEval([i \in 1..Len(ev.dir) |-> FLit(Ieee, ev.dir[i])])
      env == EnvOf(ev.vs, x)
      f0 == EvalAll(u, ev.eqs, env)
      D == EvalAll(u, ev.df.e, env)
      Dd == TLCEval([i \in 1..ev.df.c |-> FDot([k \in 1..ev.df.r |-> D[((k - 1) * ev.df.c) + i]], d)])
      at(k) == IF TagOf(D) = 1 THEN 3 ELSE IF TagOf(D) = 2 THEN 4 ELSE ArmijoAt(u, ev.eqs, ev.vs, x, d, f0, Dd, k)
      ks == {k \in 0..1100 : FEqStr(o.v, FPow2Str(k))}
      fails(k) == (\A j \in 0..(k - 1) : at(j) \in {1, 2, 4}) /\ at(k) \in {3, 4}
  IN IF o.k = "ok"
     THEN IF ks = {} THEN {"the step is " \o o.v}
          ELSE LET k == CHOOSE k \in ks : TRUE IN
               IF Count2(\E j \in 0..k : at(j) \in {2, 4}) /\ at(k) \in {0, 2, 4} /\ \A j \in 0..(k - 1) : at(j) \in {1, 2, 4} THEN {}
               ELSE {"the step is " \o o.v \o " and the condition " \o Show([j \in 0..k |-> at(j)])}
     ELSE IF o.k = "math" /\ o.e = InvalidNumber /\ \E k \in 0..60 : fails(k) THEN {} ELSE {"no step: " \o Show([o EXCEPT !.what = <<>>])}
Kept(ev, o) ==
  IF MSame([r |-> Len(ev.x), c |-> 1, d |-> ev.x], o.x2) /\ MSame([r |-> Len(ev.dir), c |-> 1, d |-> ev.dir], o.d2) THEN {} ELSE {"an argument was changed"}
DoArmijo(s, ev) == [why |-> TLCEval(ArmijoWhy(s, ev, ev.out)) \cup Kept(ev, ev.out), s |-> s]
(* the secant search ends, whatever the function *)
DoSecant(s, ev) ==
  [why |-> (IF ev.out.k = "ok" \/ (ev.out.k = "math" /\ ev.out.e = InvalidNumber /\ s.cfg.throw) THEN {} ELSE {"the secant search fails: " \o Show(ev.out)})
           \cup (IF ev.out.calls <= 200 THEN {} ELSE {"the secant search evaluates " \o ToString(ev.out.calls) \o " times"}) \cup Kept(ev, ev.out),
   s |-> s]
=============================================================================
