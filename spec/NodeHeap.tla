------------------------------- MODULE NodeHeap --------------------------------
(* Expressions as the implementation holds them: cells with an owner (a held      *)
(* variable or the parent cell) and a link back to the parent, and the operations *)
(* as sequences of moves of owners. Simplify and Diff run step by step over a list *)
(* of cells noted before, each with the side it was on. Checked for every history  *)
(* of at most D operations on two variables: cells always form trees with correct  *)
(* links, no cell is lost or reached twice, every noted cell is still where it was *)
(* noted, and what each variable holds is the tree that the operations on *trees*  *)
(* (value semantics) give.                                                        *)
(*   MUT: plants a fault in the algorithm, to see that the invariants notice:      *)
(*   hoist, subs, selfcas, side, copy                                              *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils

D == atoi(IOEnv.D)
MUT == IF "MUT" \in DOMAIN IOEnv THEN IOEnv.MUT ELSE ""
Slots == {"a", "b"}
VARIABLES h, own, want, pc, work, left
vars == <<h, own, want, pc, work, left>>

(* ---- trees ---- *)
Leaf(s) == <<s>>
LeafNames == {"x", "y", "0", "1"}
IsNum(t) == t \in {<<"0">>, <<"1">>, <<"2">>}
Start == {Leaf(s) : s \in {"x", "0"}}
         \cup {<<o, Leaf(s), Leaf(u)>> : o \in {"+", "*"}, s \in {"x", "1"}, u \in {"x", "0"}}
         \cup {<<"neg", Leaf("x")>>, <<"*", <<"+", Leaf("x"), Leaf("0")>>, <<"neg", Leaf("x")>>>>, <<"neg", <<"*", Leaf("x"), Leaf("y")>>>>}

RECURSIVE TSubst(_, _)
TSubst(t, r) == IF t = <<"x">> THEN r ELSE IF Len(t) = 1 THEN t
                ELSE IF Len(t) = 2 THEN <<t[1], TSubst(t[2], r)>> ELSE <<t[1], TSubst(t[2], r), TSubst(t[3], r)>>
(* one node, its operands simplified: the rules without arithmetic *)
TRule(t) == CASE Len(t) < 3 -> t
              [] t[1] = "*" /\ (t[2] = <<"0">> \/ t[3] = <<"0">>) -> <<"0">>
              [] t[1] = "+" /\ t[2] = <<"0">> -> t[3]
              [] t[1] = "+" /\ t[3] = <<"0">> -> t[2]
              [] t[1] = "*" /\ t[2] = <<"1">> -> t[3]
              [] t[1] = "*" /\ t[3] = <<"1">> -> t[2]
              [] OTHER -> t
RECURSIVE TSimp(_)
TSimp(t) == IF Len(t) = 1 THEN t ELSE IF Len(t) = 2 THEN <<t[1], TSimp(t[2])>> ELSE TRule(<<t[1], TSimp(t[2]), TSimp(t[3])>>)
RECURSIVE TDiff(_)
TDiff(t) == CASE t = <<"x">> -> <<"1">>
              [] Len(t) = 1 -> <<"0">>
              [] t[1] = "neg" -> <<"neg", TDiff(t[2])>>
              [] t[1] = "+" -> <<"+", TDiff(t[2]), TDiff(t[3])>>
              [] t[1] = "*" /\ IsNum(t[2]) -> <<"*", t[2], TDiff(t[3])>>
              [] t[1] = "*" /\ IsNum(t[3]) -> <<"*", TDiff(t[2]), t[3]>>
              [] OTHER -> <<"+", <<"*", TDiff(t[2]), t[3]>>, <<"*", t[2], TDiff(t[3])>>>>

(* ---- cells: n = name, l, r = owned cells, p = link to the parent; 0 = none ---- *)
Cell(n) == [n |-> n, l |-> 0, r |-> 0, p |-> 0]
New(g) == CHOOSE i \in 1..Cardinality(DOMAIN g) + 1 : i \notin DOMAIN g
Put(g, i, c) == [j \in DOMAIN g \cup {i} |-> IF j = i THEN c ELSE g[j]]
RECURSIVE Below(_, _)
Below(g, i) == IF i = 0 THEN {} ELSE {i} \cup Below(g, g[i].l) \cup Below(g, g[i].r)
Free(g, i) == [j \in DOMAIN g \ Below(g, i) |-> g[j]]
RECURSIVE TreeOf(_, _)
TreeOf(g, i) == IF g[i].l = 0 THEN <<g[i].n>> ELSE IF g[i].r = 0 THEN <<g[i].n, TreeOf(g, g[i].l)>>
                ELSE <<g[i].n, TreeOf(g, g[i].l), TreeOf(g, g[i].r)>>
(* a tree made of new cells: <<heap, its root>> *)
RECURSIVE Build(_, _, _)
Build(g, t, p) ==
  LET i == New(g)
      g1 == Put(g, i, [Cell(t[1]) EXCEPT !.p = p])
      a == IF Len(t) > 1 THEN Build(g1, t[2], i) ELSE <<g1, 0>>
      b == IF Len(t) > 2 THEN Build(a[1], t[3], i) ELSE <<a[1], 0>>
  IN <<[b[1] EXCEPT ![i].l = a[2], ![i].r = b[2]], i>>
Clone(g, i) == Build(g, TreeOf(g, i), 0)
(* the copy constructor takes the link of its source as well *)
CopyTo(g, i, p) == LET c == Clone(g, i) IN <<[c[1] EXCEPT ![c[2]].p = IF MUT = "copy" THEN g[i].p ELSE p], c[2]>>
(* an operator cell over the two cells (0: none): their links are set *)
Over(g, n, i, j) ==
  LET k == New(g)
      g1 == Put(g, k, [Cell(n) EXCEPT !.l = i, !.r = j])
      g2 == [g1 EXCEPT ![i].p = k]
  IN <<IF j = 0 THEN g2 ELSE [g2 EXCEPT ![j].p = k], k>>
Arg(g, i, cat, p) == IF cat = "m" THEN <<g, i>> ELSE CopyTo(g, i, p)

(* what owns cell i: <<"slot", s>>, <<"l", parent>> or <<"r", parent>> *)
Owners(g, o, i) == {<<"slot", s>> : s \in {s \in Slots : o[s] = i}}
                   \cup {<<"l", j>> : j \in {j \in DOMAIN g : g[j].l = i}} \cup {<<"r", j>> : j \in {j \in DOMAIN g : g[j].r = i}}
Own1(g, o, i) == CHOOSE w \in Owners(g, o, i) : TRUE

(* ---- whole operations ---- *)
Assign(g, s, i) == /\ h' = Free(g, own[s]) /\ own' = [own EXCEPT ![s] = i]
Done == pc' = "idle" /\ work' = <<>> /\ left' = left - 1
Mv(s, d) == /\ s # d /\ own[s] # 0
            /\ h' = IF own[d] = 0 THEN h ELSE Free(h, own[d])
            /\ own' = [own EXCEPT ![d] = own[s], ![s] = 0]
            /\ want' = [want EXCEPT ![d] = want[s], ![s] = <<>>] /\ Done
Cl(s, d) == /\ own[s] # 0
            /\ LET c == Clone(h, own[s]) IN /\ h' = IF own[d] = 0 THEN c[1] ELSE Free(c[1], own[d])
                                            /\ own' = [own EXCEPT ![d] = c[2]]
            /\ want' = [want EXCEPT ![d] = want[s]] /\ Done
(* d = s op t, each given as a constant or an rvalue *)
Bin(n, s, cs, t, ct, d) ==
  /\ own[s] # 0 /\ own[t] # 0 /\ (s = t => cs = "c" /\ ct = "c")
  /\ LET k == New(h)
         g0 == Put(h, k, Cell(n))                                    \* the operator comes first
         a == Arg(g0, own[s], cs, k)
         b == Arg(a[1], own[t], ct, k)
         g1 == [b[1] EXCEPT ![k].l = a[2], ![k].r = b[2]]
         g2 == IF cs = "m" THEN [g1 EXCEPT ![a[2]].p = k] ELSE g1
         g3 == IF ct = "m" THEN [g2 EXCEPT ![b[2]].p = k] ELSE g2
         o1 == [x \in Slots |-> IF (x = s /\ cs = "m") \/ (x = t /\ ct = "m") THEN 0 ELSE own[x]]
     IN /\ h' = IF o1[d] = 0 THEN g3 ELSE Free(g3, o1[d])
        /\ own' = [o1 EXCEPT ![d] = k]
        /\ want' = [x \in Slots |-> IF x = d THEN <<n, want[s], want[t]>>
                                    ELSE IF (x = s /\ cs = "m") \/ (x = t /\ ct = "m") THEN <<>> ELSE want[x]]
  /\ Done
(* s op= t: t is taken first, because it may be s *)
Cas(n, s, t, ct) ==
  /\ own[s] # 0 /\ own[t] # 0 /\ (s = t => ct = "c")
  /\ LET b == IF MUT = "selfcas" /\ s = t THEN <<h, own[s]>> ELSE IF ct = "m" THEN <<h, own[t]>> ELSE Clone(h, own[t])
         r == Over(b[1], n, own[s], b[2])
     IN /\ h' = r[1] /\ own' = [x \in Slots |-> IF x = s THEN r[2] ELSE IF x = t /\ ct = "m" THEN 0 ELSE own[x]]
        /\ want' = [x \in Slots |-> IF x = s THEN <<n, want[s], want[t]>> ELSE IF x = t /\ ct = "m" THEN <<>> ELSE want[x]]
  /\ Done
(* s = Subs(move(s), x, t): every occurrence is replaced by a copy of its own *)
RECURSIVE Replace(_, _, _)
Replace(g, is, src) ==                      \* is: the cells x still to be replaced, <<g, old, new>> for the root
  IF is = {} THEN g
  ELSE LET i == CHOOSE i \in is : TRUE
           w == g[i].p
           side == IF g[w].l = i THEN "l" ELSE "r"
           c == Clone(g, src)
           g1 == IF side = "l" THEN [c[1] EXCEPT ![w].l = c[2]] ELSE [c[1] EXCEPT ![w].r = c[2]]
           g2 == IF MUT = "subs" THEN g1 ELSE [g1 EXCEPT ![c[2]].p = w]
       IN Replace([j \in DOMAIN g2 \ {i} |-> g2[j]], is \ {i}, src)
Sub(s, t) ==
  /\ own[s] # 0 /\ own[t] # 0
  /\ LET dict == Clone(h, own[t])
     IN IF h[own[s]].n = "x"
        THEN LET c == Clone(dict[1], dict[2]) IN h' = Free(Free(c[1], dict[2]), own[s]) /\ own' = [own EXCEPT ![s] = c[2]]
        ELSE /\ h' = Free(Replace(dict[1], {i \in Below(h, own[s]) : h[i].n = "x"}, dict[2]), dict[2])
             /\ UNCHANGED own
  /\ want' = [want EXCEPT ![s] = TSubst(want[s], want[t])] /\ Done

(* ---- Simplify and Diff, step by step ---- *)
IsOp(g, i) == i # 0 /\ g[i].l # 0
Side(g, i) == IF g[i].p = 0 \/ g[g[i].p].l = i THEN "l" ELSE "r"
(* the operators below i, parents before children *)
RECURSIVE Noted(_, _)
Noted(g, i) == IF ~IsOp(g, i) THEN <<>> ELSE <<[i |-> i, side |-> Side(g, i)]>> \o Noted(g, g[i].r) \o Noted(g, g[i].l)
Rev(q) == [k \in DOMAIN q |-> q[Len(q) + 1 - k]]
Begin(s, what) ==
  /\ own[s] # 0 /\ pc' = what \o s
  /\ work' = Rev(Noted(h, own[s]))
  /\ UNCHANGED <<h, own, want, left>>
(* cell i is replaced, where it is owned, by cell k (out of its own subtree, or new) *)
Become(g, o, i, k, fresh) ==
  LET p == g[i].p
      g1 == IF fresh THEN g ELSE LET q == g[k].p IN IF g[q].l = k THEN [g EXCEPT ![q].l = 0] ELSE [g EXCEPT ![q].r = 0]
      g2 == IF p = 0 THEN g1 ELSE IF g[p].l = i THEN [g1 EXCEPT ![p].l = k] ELSE [g1 EXCEPT ![p].r = k]
      g3 == IF MUT = "hoist" THEN g2 ELSE [g2 EXCEPT ![k].p = p]
  IN <<[j \in DOMAIN g3 \ Below(g1, i) |-> g3[j]], IF p = 0 THEN [s \in Slots |-> IF o[s] = i THEN k ELSE o[s]] ELSE o>>
SimplifyCell(g, o, i) ==
  LET c == g[i]
      l0 == c.r # 0 /\ g[c.l].n = "0"   r0 == c.r # 0 /\ g[c.r].n = "0"
      l1 == c.r # 0 /\ g[c.l].n = "1"   r1 == c.r # 0 /\ g[c.r].n = "1"
  IN CASE c.n = "*" /\ (l0 \/ r0) -> LET k == New(g) IN Become(Put(g, k, Cell("0")), o, i, k, TRUE)
       [] (c.n = "+" /\ l0) \/ (c.n = "*" /\ l1) -> Become(g, o, i, c.r, FALSE)
       [] (c.n = "+" /\ r0) \/ (c.n = "*" /\ r1) -> Become(g, o, i, c.l, FALSE)
       [] OTHER -> <<g, o>>
SlotOf(w) == IF w \in {"simpa", "simda", "diffa"} THEN "a" ELSE "b"
Simp == /\ pc \in {"simpa", "simpb", "simda", "simdb"}
        /\ IF work = <<>>
           THEN LET s == SlotOf(pc)
                IN IF pc \in {"simpa", "simpb"}
                   THEN want' = [want EXCEPT ![s] = TSimp(want[s])] /\ Done /\ UNCHANGED <<h, own>>
                   ELSE /\ pc' = "diff" \o s                        \* then the derivative: from the root
                        /\ want' = [want EXCEPT ![s] = TSimp(want[s])]
                        /\ work' = <<[i |-> own[s], side |-> "l"]>> /\ UNCHANGED <<h, own, left>>
           ELSE /\ LET r == SimplifyCell(h, own, work[1].i) IN h' = r[1] /\ own' = r[2]
                /\ work' = Tail(work) /\ UNCHANGED <<want, pc, left>>
(* one noted cell becomes its derivative; new ones are noted, with the side known at that time *)
Note(g, i) == [i |-> i, side |-> IF g[i].p # 0 /\ g[g[i].p].l = i THEN "l" ELSE "r"]
DiffCell(g, o, i) ==
  LET c == g[i] IN
  CASE c.l = 0 -> <<[g EXCEPT ![i].n = IF c.n = "x" THEN "1" ELSE "0"], o, <<>>>>
    [] c.n = "neg" -> <<g, o, <<Note(g, c.l)>>>>
    [] c.n = "+" -> <<g, o, <<Note(g, c.l), Note(g, c.r)>>>>
    [] c.n = "*" /\ g[c.l].n \in {"0", "1"} -> <<g, o, <<Note(g, c.r)>>>>
    [] c.n = "*" /\ g[c.r].n \in {"0", "1"} -> <<g, o, <<Note(g, c.l)>>>>
    [] OTHER ->
       LET p == c.p
           u2 == Clone(g, c.l)
           v2 == Clone(u2[1], c.r)
           notes == <<Note(g, c.l), Note(v2[1], v2[2])>>
           prod == IF MUT = "side" THEN Over(v2[1], "*", v2[2], u2[2]) ELSE Over(v2[1], "*", u2[2], v2[2])
           sum == Over(prod[1], "+", i, prod[2])
           g1 == [sum[1] EXCEPT ![sum[2]].p = p]
           g2 == IF p = 0 THEN g1 ELSE IF g[p].l = i THEN [g1 EXCEPT ![p].l = sum[2]] ELSE [g1 EXCEPT ![p].r = sum[2]]
       IN <<g2, IF p = 0 THEN [s \in Slots |-> IF o[s] = i THEN sum[2] ELSE o[s]] ELSE o, notes>>
Diff == /\ pc \in {"diffa", "diffb"}
        /\ LET s == SlotOf(pc) IN
           IF work = <<>> THEN want' = [want EXCEPT ![s] = TDiff(want[s])] /\ Done /\ UNCHANGED <<h, own>>
           ELSE /\ LET r == DiffCell(h, own, work[1].i) IN h' = r[1] /\ own' = r[2] /\ work' = Tail(work) \o r[3]
                /\ UNCHANGED <<want, pc, left>>

Init == /\ \E t \in Start, u \in {Leaf("x"), <<"neg", Leaf("x")>>} :
             LET a == Build(<<>>, t, 0)
                 b == Build(a[1], u, 0)
             IN h = b[1] /\ own = [s \in Slots |-> IF s = "a" THEN a[2] ELSE b[2]] /\ want = [s \in Slots |-> IF s = "a" THEN t ELSE u]
        /\ pc = "idle" /\ work = <<>> /\ left = D
Cats == {"c", "m"}
Next == \/ /\ pc = "idle" /\ left > 0
           /\ \E s \in Slots, d \in Slots :
                \/ Mv(s, d) \/ Cl(s, d) \/ Sub(s, d)
                \/ \E n \in {"+", "*"}, ct \in Cats : Cas(n, s, d, ct)
                \/ \E t \in Slots, cs \in Cats, ct \in Cats : Bin("*", s, cs, t, ct, d)
        \/ pc = "idle" /\ left > 0 /\ \E s \in Slots : Begin(s, "simp") \/ Begin(s, "simd")
        \/ Simp \/ Diff
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* every cell is owned exactly once, by what its link says; nothing is lost *)
OwnedOnce == \A i \in DOMAIN h : Cardinality(Owners(h, own, i)) = 1
Linked == \A i \in DOMAIN h : IF h[i].p = 0 THEN Own1(h, own, i)[1] = "slot"
                              ELSE h[i].p \in DOMAIN h /\ Own1(h, own, i) \in {<<"l", h[i].p>>, <<"r", h[i].p>>}
NothingLost == DOMAIN h = UNION {Below(h, own[s]) : s \in Slots}
(* a noted cell is alive, and on the side that was noted *)
StillThere == \A k \in DOMAIN work : /\ work[k].i \in DOMAIN h
                                     /\ h[work[k].i].p # 0 => work[k].side = Side(h, work[k].i)
ValueSemantics == pc = "idle" => \A s \in Slots : IF own[s] = 0 THEN want[s] = <<>> ELSE TreeOf(h, own[s]) = want[s]
Ends == (pc # "idle") ~> (pc = "idle")
=============================================================================
