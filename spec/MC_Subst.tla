-------------------------------- MODULE MC_Subst --------------------------------
(* Substitution as a machine: the places of the variables are noted once, then each  *)
(* one that has a value is replaced by a copy of it. Checked for every tree of at      *)
(* most SIZE nodes and every choice of values, which may contain the variables that     *)
(* are replaced: the result is the simultaneous replacement of the specification, its    *)
(* value is that of the old tree where the replaced variables have the values of what    *)
(* they are replaced by, its variables are those that stayed and those of the values      *)
(* used; replacing in two steps is one step with the values replaced.                     *)
(* MUT plants a fault.                                                                    *)
EXTENDS Expr, TLC, IOUtils

SIZE == atoi(IOEnv.SIZE)
MUT == IF "MUT" \in DOMAIN IOEnv THEN IOEnv.MUT ELSE ""
Names == {"x", "y", "z"}
Leaves == {<<"v", "x">>, <<"v", "y">>, <<"n", "2">>}
RECURSIVE TreesOf(_)
TreesOf(k) ==
  IF k = 1 THEN Leaves
  ELSE LET t == [i \in 1..(k - 1) |-> TLCEval(TreesOf(i))] IN
       {<<f, a>> : f \in {"neg", "exp"}, a \in t[k - 1]}
       \cup UNION {{<<o, a, b>> : o \in {"+", "-", "^"}, a \in t[i], b \in t[k - 1 - i]} : i \in 1..(k - 2)}
Values == {<<"v", "x">>, <<"v", "y">>, <<"v", "z">>, <<"n", "3">>, <<"-", <<"v", "y">>, <<"v", "x">>>>}
Dicts == UNION {[d -> Values] : d \in SUBSET Names}

RECURSIVE At(_, _), With(_, _, _), Places(_, _)
At(e, p) == IF p = <<>> THEN e ELSE At(e[Head(p)], Tail(p))
With(e, p, t) == IF p = <<>> THEN t ELSE [e EXCEPT ![Head(p)] = With(e[Head(p)], Tail(p), t)]
Under(e, i, q) == LET s == Places(e[i], q) IN [j \in 1..Len(s) |-> <<i>> \o s[j]]
(* q: the names looked for *)
Places(e, q) == IF e[1] = "v" THEN (IF e[2] \in q THEN <<<<>>>> ELSE <<>>) ELSE IF IsNum(e) THEN <<>>
             ELSE IF Len(e) = 2 THEN Under(e, 2, q) ELSE Under(e, 2, q) \o Under(e, 3, q)

VARIABLES orig, dict, e, todo, out, names
vars == <<orig, dict, e, todo, out, names>>
InOrder(S) == CHOOSE q \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]
Init == /\ orig \in UNION {TreesOf(k) : k \in 1..SIZE} /\ dict \in Dicts
        /\ e = orig /\ out = "?"
        /\ todo = (IF MUT = "byname" THEN <<>> ELSE Places(orig, DOMAIN dict))
        /\ names = (IF MUT = "byname" THEN InOrder(DOMAIN dict) ELSE <<>>)
Replace ==
  /\ out = "?" /\ todo # <<>>
  /\ LET x == At(orig, Head(todo))[2] IN
        /\ e' = With(e, Head(todo), dict[x])
        /\ todo' = (IF MUT = "first" THEN SelectSeq(Tail(todo), LAMBDA p : At(orig, p)[2] # x) ELSE Tail(todo))
  /\ UNCHANGED <<orig, dict, out, names>>
(* the fault: one name after the other, each in the tree as it has become *)
NextName == /\ out = "?" /\ todo = <<>> /\ names # <<>>
            /\ e' = Subst(e, [x \in {Head(names)} |-> dict[x]]) /\ names' = Tail(names)
            /\ UNCHANGED <<orig, dict, todo, out>>
Finish == out = "?" /\ todo = <<>> /\ names = <<>> /\ out' = "done" /\ UNCHANGED <<orig, dict, e, todo, names>>
Next == Replace \/ NextName \/ Finish
Spec == Init /\ [][Next]_vars

Done == out = "done"
Pt == [x |-> FLit(48, "0.7"), y |-> FLit(48, "1.6"), z |-> FLit(48, "2.3")]
Through == [x \in Names |-> IF x \in DOMAIN dict THEN Eval(40, dict[x], Pt) ELSE Pt[x]]
IsSubst == Done => e = Subst(orig, dict)
Lemma == Done => LET a == Eval(40, orig, Through) b == Eval(40, e, Pt) IN FTag(a) = FTag(b) /\ (FTag(a) = 0 => FMeet(36, a, b))
VarsKept == Done => Vars(e) = (Vars(orig) \ DOMAIN dict) \cup UNION {Vars(dict[x]) : x \in Vars(orig) \cap DOMAIN dict}
(* composition with the exchange of x and y *)
Swapped == [x |-> <<"v", "y">>, y |-> <<"v", "x">>]
TwoSteps == Done => Subst(Subst(orig, dict), Swapped)
                    = Subst(orig, [x \in DOMAIN dict \cup DOMAIN Swapped |-> IF x \in DOMAIN dict THEN Subst(dict[x], Swapped) ELSE Swapped[x]])
=============================================================================
