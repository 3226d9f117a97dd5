------------------------------ MODULE MC_Deriv ------------------------------
(* The two specifications of differentiation agree: for every tree of at most    *)
(* SIZE nodes, the Taylor coefficients (Jet) and the value of the tree given by   *)
(* the textbook rules (DTree), for first and second derivatives, mixed orders.    *)
EXTENDS Deriv, TLC, IOUtils

SIZE == atoi(IOEnv.SIZE)
Leaves == {<<"v", "x">>, <<"v", "y">>, <<"n", "2">>, <<"n", "0.5">>}
Uns == {"neg", "sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "log", "log2", "log10", "exp"}
RECURSIVE TreesOf(_)
TreesOf(k) ==
  IF k = 1 THEN Leaves
  ELSE {<<u, t>> : u \in Uns, t \in TreesOf(k - 1)}
       \cup UNION {{<<b, l, r>> : b \in Arith, l \in TreesOf(i), r \in TreesOf(k - 1 - i)} : i \in 1..(k - 2)}

VARIABLES e, pt, done
vars == <<e, pt, done>>
Pts == {[x |-> "0.37", y |-> "0.81"], [x |-> "1.62", y |-> "0.45"]}
Init == e \in UNION {TreesOf(k) : k \in 1..SIZE} /\ pt \in Pts /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<e, pt>>
Spec == Init /\ [][Next]_vars

Env == [x \in DOMAIN pt |-> FLit(48, pt[x])]
U == 40
Agree(b, t) == FTag(b) # 0 \/ LET c == Eval(U, t, Env) IN FTag(c) # 0 \/ FMeet(U, b, c)
First == done => Agree(DerivAt(U, e, "x", 1, Env), DTree(e, "x"))
Second == done /\ Size(e) <= SIZE - 1 => Agree(DerivAt(U, e, "x", 2, Env), DTreeN(e, "x", 2))
(* both orders of a mixed derivative have the same value *)
Mixed == done /\ Size(e) <= SIZE - 1 =>
   LET a == MixedAt(U, e, << <<"x", 1>>, <<"y", 1>> >>, Env)
       b == MixedAt(U, e, << <<"y", 1>>, <<"x", 1>> >>, Env)
   IN FTag(a) # 0 \/ FTag(b) # 0 \/ FMeet(36, a, b)
(* a finite difference quotient lies near the first derivative, for tame expressions *)
H == "0.0001"
Shift(s) == [x \in DOMAIN pt |-> IF x = "x" THEN FAdd(48, Env["x"], FLit(48, s)) ELSE Env[x]]
Quotient == FDiv(U, FSub(U, Eval(48, e, Shift(H)), Eval(48, e, Shift("-0.0001"))), FLit(48, "0.0002"))
Numeric == done /\ Size(e) <= 3 =>
   LET d == DerivAt(U, e, "x", 1, Env) q == Quotient IN
   FTag(d) # 0 \/ FTag(q) # 0 \/ FMeet(36, FWiden(d, "0.0005"), q) \/ FLt(FInt(20), FAbs(U, d)) = 1
=============================================================================
