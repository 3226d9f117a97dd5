------------------------------ MODULE MC_Simplify ------------------------------
(* Simplification as a machine: the operators below the root are noted once, in    *)
(* post-order, by where they are; then each is rewritten in place, and last the    *)
(* root. Numbers that the rewriting makes are balls, and where a ball leaves open   *)
(* whether it is 0 or 1 both ways are taken. Checked for every tree of at most SIZE *)
(* nodes: every single rewriting preserves the value wherever it is defined; it is  *)
(* refused only if a constant part, or the whole, has no value; what is left has     *)
(* nothing to simplify and no variable that was not there; every noted place is      *)
(* still there.                                                                    *)
(* MUT plants a fault in one rule, to see that the invariants notice.               *)
EXTENDS Expr, TLC, IOUtils

SIZE == atoi(IOEnv.SIZE)
THROW == IOEnv.THROW = "1"
MUT == IF "MUT" \in DOMAIN IOEnv THEN IOEnv.MUT ELSE ""
UU == IF THROW THEN 48 ELSE -48
Leaves == {<<"v", "x">>, <<"v", "y">>} \cup {<<"n", t>> : t \in {"0", "1", "2", "-1", "0.5"}}
Uns == {"neg", "pos", "sqrt", "log", "asin"}
RECURSIVE TreesOf(_)
TreesOf(k) ==
  IF k = 1 THEN Leaves
  ELSE LET t == [i \in 1..(k - 1) |-> TLCEval(TreesOf(i))] IN
       {<<f, a>> : f \in Uns, a \in t[k - 1]}
       \cup UNION {{<<o, a, b>> : o \in Arith, a \in t[i], b \in t[k - 1 - i]} : i \in 1..(k - 2)}

(* numbers as <<"q", ball>> *)
RECURSIVE Q(_)
Q(e) == IF e[1] = "n" THEN <<"q", FLit(UU, e[2])>> ELSE IF e[1] = "v" THEN e
        ELSE IF Len(e) = 2 THEN <<e[1], Q(e[2])>> ELSE <<e[1], Q(e[2]), Q(e[3])>>
IsQ(e) == e[1] = "q"
IsOp(e) == e[1] \notin {"q", "v"}
RECURSIVE EvalQ(_, _)
EvalQ(e, env) ==
  IF e[1] = "q" THEN e[2] ELSE IF e[1] = "v" THEN env[e[2]]
  ELSE IF Len(e) = 2 THEN App1(40, e[1], EvalQ(e[2], env)) ELSE App2(40, e[1], EvalQ(e[2], env), EvalQ(e[3], env))
RECURSIVE VarsQ(_)
VarsQ(e) == IF e[1] = "q" THEN {} ELSE IF e[1] = "v" THEN {e[2]} ELSE IF Len(e) = 2 THEN VarsQ(e[2]) ELSE VarsQ(e[2]) \cup VarsQ(e[3])

(* what a number may turn out to be: "0", "1" or "?" *)
MayBe(b, k) == FTag(b) = 2 \/ (FTag(b) = 0 /\ FTag(FSub(48, b, FInt(k))) = 0 /\ ~FNonZero(FSub(48, b, FInt(k))))
Certain(b, k) == FTag(b) = 0 /\ FIsZero(FSub(48, b, FInt(k)))
Kinds(e) == IF ~IsQ(e) THEN {"?"}
            ELSE IF Certain(e[2], 0) THEN {"0"} ELSE IF Certain(e[2], 1) THEN {"1"}
            ELSE {"?"} \cup (IF MayBe(e[2], 0) THEN {"0"} ELSE {}) \cup (IF MayBe(e[2], 1) THEN {"1"} ELSE {})

(* one place: the set of trees it may become, or refused *)
Refused == <<"refused">>
Fold(b, e) == IF THROW THEN (CASE FTag(b) = 0 -> {<<"q", b>>} [] FTag(b) = 1 -> {Refused} [] OTHER -> {<<"q", b>>, Refused}) ELSE {<<"q", b>>}
Rule(e) ==
  IF Len(e) = 2 THEN (IF IsQ(e[2]) THEN Fold(App1(UU, e[1], e[2][2]), e) ELSE {e})
  ELSE IF IsQ(e[2]) /\ IsQ(e[3]) THEN Fold(App2(UU, e[1], e[2][2], e[3][2]), e)
  ELSE UNION {UNION {LET l == k r == m op == e[1] IN
         IF \/ op = "*" /\ (l = "0" \/ r = "0")
            \/ op = "/" /\ l = "0"
            \/ op = "^" /\ l = "0"
            \/ MUT = "minuszero" /\ op = "-" /\ l = "0"
         THEN {<<"q", FInt(0)>>}
         ELSE IF \/ op = "+" /\ (l = "0" \/ r = "0")
                 \/ op = "-" /\ r = "0"
                 \/ op = "*" /\ (l = "1" \/ r = "1")
                 \/ op = "/" /\ r = "1"
                 \/ op = "^" /\ r = "1"
                 \/ MUT = "onepow" /\ op = "^" /\ l = "1"
                 \/ MUT = "oneover" /\ op = "/" /\ l = "1"
         THEN (IF l \in {"0", "1"} THEN {e[3]} ELSE {e[2]})
         ELSE {e} : m \in Kinds(e[3])} : k \in Kinds(e[2])}

RECURSIVE At(_, _), With(_, _, _), Places(_)
At(e, p) == IF p = <<>> THEN e ELSE At(e[Head(p)], Tail(p))
With(e, p, t) == IF p = <<>> THEN t ELSE [e EXCEPT ![Head(p)] = With(e[Head(p)], Tail(p), t)]
Below(e, i) == IF IsOp(e[i]) THEN LET s == Places(e[i]) IN [j \in 1..Len(s) |-> <<i>> \o s[j]] ELSE <<>>
Places(e) == (IF Len(e) = 2 THEN Below(e, 2) ELSE Below(e, 2) \o Below(e, 3)) \o <<<<>>>>
PlacesOf(e) == IF ~IsOp(e) THEN <<>> ELSE IF MUT = "backwards" THEN LET s == Places(e) IN [j \in 1..Len(s) |-> s[Len(s) + 1 - j]] ELSE Places(e)

VARIABLES orig, e, todo, out
vars == <<orig, e, todo, out>>
Init == /\ orig \in UNION {TreesOf(k) : k \in 1..SIZE}
        /\ e = Q(orig) /\ todo = PlacesOf(Q(orig)) /\ out = "?"
Step == /\ out = "?" /\ todo # <<>>
        /\ \E t \in Rule(At(e, Head(todo))) :
             IF t = Refused THEN out' = "refused" /\ UNCHANGED <<e, todo>>
             ELSE e' = With(e, Head(todo), t) /\ todo' = Tail(todo) /\ UNCHANGED out
        /\ UNCHANGED orig
Finish == out = "?" /\ todo = <<>> /\ out' = "done" /\ UNCHANGED <<orig, e, todo>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

Pts == {[x |-> "0.37", y |-> "1.81"], [x |-> "-1.62", y |-> "3"], [x |-> "0.5", y |-> "-2"]}
Env(pt) == [v \in DOMAIN pt |-> FLit(48, pt[v])]
ValueKept == \A pt \in Pts :
  LET a == EvalLoose(orig, Env(pt)) b == EvalQ(e, Env(pt)) IN FTag(a) # 0 \/ FTag(b) = 2 \/ (FTag(b) = 0 /\ FMeet(36, a, b))
RefusedWithReason == out = "refused" => (BadConst(48, orig) \/ \A pt \in Pts : FTag(EvalLoose(orig, Env(pt))) # 0)
NoNewVariable == VarsQ(e) \subseteq Vars(orig)
(* every place still noted holds an operator *)
PlacesHold == \A i \in 1..Len(todo) : LET t == At(e, todo[i]) IN Len(t) \in {2, 3} /\ (todo[i] # <<>> => IsOp(t))
(* nothing left to do, when every kind of number is certain *)
RECURSIVE Normal(_)
Normal(t) ==
  IF ~IsOp(t) THEN TRUE
  ELSE /\ \A i \in 2..Len(t) : Normal(t[i])
       /\ t \in Rule(t)
Done == out = "done" => Normal(e)
=============================================================================
