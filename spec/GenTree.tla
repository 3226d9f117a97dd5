------------------------------- MODULE GenTree -------------------------------
(* Writes every expression of LOW to SIZE nodes over a set of leaves, functions  *)
(* and operators, one per line, to the file OUT. HAS restricts them to those     *)
(* that mention x.                                                               *)
EXTENDS Expr, TLC, Json, IOUtils, SequencesExt

V(x) == <<"v", x>>
C(t) == <<"n", t>>
Leaves ==
  CASE IOEnv.LEAVES = "core"   -> {V("x"), C("0"), C("1"), C("-1"), C("2"), C("0.5")}
    [] IOEnv.LEAVES = "two"    -> {V("x"), V("y"), C("2")}
    [] IOEnv.LEAVES = "names"  -> {V("x"), V("y"), V("x1"), C("1")}
    [] IOEnv.LEAVES = "consts" -> {C("0"), C("1"), C("-2"), C("0.5"), C("3")}
    [] IOEnv.LEAVES = "one"    -> {V("x"), C("2"), C("-1")}
Unary ==
  CASE IOEnv.FUNS = "none"  -> {}
    [] IOEnv.FUNS = "signs" -> Signs
    [] IOEnv.FUNS = "some"  -> {"neg", "sin", "exp", "log", "sqrt"}
    [] IOEnv.FUNS = "all"   -> Signs \cup Funs
Binary ==
  CASE IOEnv.OPS = "arith" -> Arith [] IOEnv.OPS = "all" -> BinOps [] IOEnv.OPS = "none" -> {} [] IOEnv.OPS = "some" -> {"+", "-", "^"}

RECURSIVE T(_)
T(n) == IF n = 1 THEN Leaves
        ELSE LET t == [k \in 1..(n - 1) |-> TLCEval(T(k))] IN
             {<<f, e>> : f \in Unary, e \in t[n - 1]}
             \cup UNION {{<<o, a, b>> : o \in Binary, a \in t[i], b \in t[n - 1 - i]} : i \in 1..(n - 2)}
All == UNION {T(n) : n \in atoi(IOEnv.LOW)..atoi(IOEnv.SIZE)}
Kept == IF IOEnv.HAS = "x" THEN {e \in All : "x" \in Vars(e)} ELSE All
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Kept))
=============================================================================
