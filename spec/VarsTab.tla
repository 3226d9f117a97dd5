-------------------------------- MODULE VarsTab --------------------------------
(* Variable tables, held by name: [names, vals], two sequences.                    *)
EXTENDS SymMatrix
LOCAL INSTANCE SequencesExt

TabOf(ns, vs) == [names |-> ns, vals |-> vs]
TVal(t, x) == t.vals[CHOOSE i \in 1..Len(t.names) : t.names[i] = x]
RECURSIVE StrLines(_, _)
(* the printed table: one line "name = number" for each pair, in the order of iteration *)
StrLines(w, it) ==
  IF it = <<>> THEN w = <<>>
  ELSE LET nl == {i \in 1..Len(w) : w[i] = 10}
           eqs == {i \in 1..Len(w) : w[i] = 61}
       IN /\ nl # {} /\ eqs # {}
          /\ LET e == CHOOSE i \in eqs : \A j \in eqs : i <= j
                 q == CHOOSE i \in nl : \A j \in nl : i <= j
             IN /\ e > 2 /\ q > e + 2
                /\ CodesToStr(SubSeq(w, 1, e - 2)) = it[1][1] /\ w[e - 1] = 32 /\ w[e + 1] = 32
                /\ (FFiniteStr(it[1][2]) => NumTextOk(SubSeq(w, e + 2, q - 1), it[1][2]))
                /\ StrLines(SubSeq(w, q + 1, Len(w)), Tail(it))

(* what a table shows (o) agrees with t *)
TabOk(t, o) ==
  /\ o.n = Len(t.names) /\ o.names = t.names /\ Len(o.values) = Len(t.vals)
  /\ \A i \in 1..Len(t.vals) : FSame(o.values[i], t.vals[i])
  /\ Len(o.iter) = Len(t.names)
  /\ {o.iter[i][1] : i \in 1..Len(o.iter)} = Range(t.names)
  /\ \A i \in 1..Len(o.iter) : FSame(o.iter[i][2], TVal(t, o.iter[i][1]))
  /\ o.same /\ StrLines(o.str, o.iter)
(* made from pairs, in an order of its own *)
TabFrom(ps, o) ==
  LET ns == IF o.k = "ok" /\ "names" \in DOMAIN o THEN o.names ELSE <<>>
      keys == {ps[i][1] : i \in 1..Len(ps)}
      val(x) == ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = x][2]
  IN IF Range(ns) = keys /\ Len(ns) = Cardinality(keys) THEN TabOf(ns, [i \in 1..Len(ns) |-> val(ns[i])])
     ELSE TabOf(<<>>, <<"none">>)
DoVt(s, ev) ==
  LET o == ev.out
      f == ev.f
      ok == o.k = "ok"
      t == s.tabs[ev.a]
      put(d, u) == Res(ok /\ TabOk(u, o), "table shows " \o Show(o) \o " and should be " \o Show(u), [s EXCEPT !.tabs = (d :> u) @@ @])
  IN CASE f = "vec" -> put(ev.d, TabOf(ev.names, [i \in 1..Len(ev.names) |-> ev.x]))
       [] f = "init" -> put(ev.d, TabFrom(ev.ps, o))
       [] f = "map" -> put(ev.d, TabFrom(SetToSeq({<<x, ev.m[x]>> : x \in DOMAIN ev.m}), o))
       [] f \in {"copy", "assign"} -> put(ev.d, t)
       [] f = "set" -> put(ev.a, TabOf(t.names, ev.vs))
       [] f = "obs" -> put(ev.a, t)
       [] f = "get" -> IF ev.n \in Range(t.names) THEN Res(ok /\ FSame(o.v, TVal(t, ev.n)), "value of " \o ev.n \o " is " \o Show(o), s)
                       ELSE Res(o.k = "range", "an absent variable has a value or another error", s)
       [] f = "has" -> Res(ok /\ o.b = (ev.n \in Range(t.names)), "membership of " \o ev.n, s)
       [] f = "eq" -> LET u == s.tabs[ev.b]
                          eps == FLit(48, s.cfg.eps)
                          near == All3({Within(FSub(Ieee, FLit(Ieee, TVal(t, x)), FLit(Ieee, TVal(u, x))), eps) : x \in Range(t.names)})
                      IN Res(ok /\ (IF Range(t.names) # Range(u.names) THEN ~o.b ELSE Agrees(near, o.b)), "equality of tables " \o Show(t) \o " and " \o Show(u) \o " is " \o Show(o), s)
=============================================================================
