--------------------------------- MODULE Expr ---------------------------------
(* Expressions as values, and what they mean. An expression is a tuple          *)
(*   <<"n", text>>   a number (the double written in text)                      *)
(*   <<"np", text>>  a number known only to the precision with which it printed *)
(*   <<"v", name>>   a variable                                                 *)
(*   <<op, e>>       a sign or function                                         *)
(*   <<op, l, r>>    a binary operator                                          *)
(* Values are balls (Num754). An environment maps names to balls.               *)
EXTENDS Integers, Sequences, FiniteSets, Num754

Funs    == {"sin", "cos", "tan", "asin", "acos", "atan", "sqrt", "log", "log2", "log10", "exp"}
Signs   == {"pos", "neg"}
Bits    == {"%", "&", "|"}
Arith   == {"+", "-", "*", "/", "^"}
BinOps  == Arith \cup Bits

IsLeaf(e) == e[1] \in {"n", "np", "v"}
IsNum(e)  == e[1] = "n" \/ e[1] = "np"

RECURSIVE Vars(_)
Vars(e) ==
  IF e[1] = "v" THEN {e[2]}
  ELSE IF e[1] = "n" \/ e[1] = "np" THEN {}
  ELSE IF Len(e) = 2 THEN Vars(e[2]) ELSE Vars(e[2]) \cup Vars(e[3])

RECURSIVE Size(_)
Size(e) == IF IsLeaf(e) THEN 1 ELSE IF Len(e) = 2 THEN 1 + Size(e[2]) ELSE 1 + Size(e[2]) + Size(e[3])

(* one operator; u is the rounding and error mode of Num754 *)
App1(u, op, a) ==
  CASE op = "neg"  -> FNeg(u, a)  [] op = "pos"  -> a
    [] op = "sin"  -> FSin(u, a)  [] op = "cos"  -> FCos(u, a)  [] op = "tan"  -> FTan(u, a)
    [] op = "asin" -> FAsin(u, a) [] op = "acos" -> FAcos(u, a) [] op = "atan" -> FAtan(u, a)
    [] op = "sqrt" -> FSqrt(u, a) [] op = "log"  -> FLog(u, a)  [] op = "log2" -> FLog2(u, a)
    [] op = "log10" -> FLog10(u, a) [] op = "exp" -> FExp(u, a)
App2(u, op, a, b) ==
  CASE op = "+" -> FAdd(u, a, b) [] op = "-" -> FSub(u, a, b) [] op = "*" -> FMul(u, a, b)
    [] op = "/" -> FDiv(u, a, b) [] op = "^" -> FPow(u, a, b) [] op = "%" -> FMod(u, a, b)
    [] op = "&" -> FAnd(u, a, b) [] op = "|" -> FOr(u, a, b)

RECURSIVE Eval(_, _, _)
Eval(u, e, env) ==
  IF e[1] = "n" THEN FLit(u, e[2])
  ELSE IF e[1] = "np" THEN FLitP(u, e[2])
  ELSE IF e[1] = "v" THEN (IF e[2] \in DOMAIN env THEN env[e[2]] ELSE FUnsure)
  ELSE IF Len(e) = 2 THEN App1(u, e[1], Eval(u, e[2], env))
  ELSE App2(u, e[1], Eval(u, e[2], env), Eval(u, e[3], env))

(* 0^0 counts as undefined where the exponent is not constant: simplification takes 0^x for 0 *)
RECURSIVE ZeroPow(_, _)
ZeroPow(e, env) ==
  IF IsLeaf(e) THEN FALSE
  ELSE IF Len(e) = 2 THEN ZeroPow(e[2], env)
  ELSE \/ e[1] = "^" /\ Vars(e[3]) # {} /\ ~FNonZero(Eval(40, e[2], env)) /\ ~FNonZero(Eval(40, e[3], env))
       \/ ZeroPow(e[2], env) \/ ZeroPow(e[3], env)
EvalLoose(e, env) == IF ZeroPow(e, env) THEN FUnsure ELSE Eval(40, e, env)

(* simultaneous substitution; dict maps names to expressions *)
RECURSIVE Subst(_, _)
Subst(e, dict) ==
  IF e[1] = "v" THEN (IF e[2] \in DOMAIN dict THEN dict[e[2]] ELSE e)
  ELSE IF IsNum(e) THEN e
  ELSE IF Len(e) = 2 THEN <<e[1], Subst(e[2], dict)>>
  ELSE <<e[1], Subst(e[2], dict), Subst(e[3], dict)>>

(* structural identity; numbers are compared as doubles *)
RECURSIVE Same(_, _)
Same(a, b) ==
  /\ a[1] = b[1] /\ Len(a) = Len(b)
  /\ IF a[1] = "n" THEN FEqStr(a[2], b[2])
     ELSE IF a[1] = "v" THEN a[2] = b[2]
     ELSE IF Len(a) = 2 THEN Same(a[2], b[2])
     ELSE Same(a[2], b[2]) /\ Same(a[3], b[3])

NoEnv == [x \in {} |-> x]

(* some variable-free part of e has no (certain) value *)
RECURSIVE BadConst(_, _)
BadConst(u, e) ==
  IF IsLeaf(e) THEN IsNum(e) /\ FTag(Eval(u, e, NoEnv)) # 0
  ELSE IF Vars(e) = {} THEN FTag(Eval(u, e, NoEnv)) # 0
  ELSE IF Len(e) = 2 THEN BadConst(u, e[2])
  ELSE BadConst(u, e[2]) \/ BadConst(u, e[3])

(* a constant base that is not surely positive under an exponent that is not a number *)
RECURSIVE BadBase(_)
BadBase(e) ==
  IF IsLeaf(e) THEN FALSE
  ELSE IF Len(e) = 2 THEN BadBase(e[2])
  ELSE \/ BadBase(e[2]) \/ BadBase(e[3])
       \/ /\ e[1] = "^" /\ Vars(e[3]) # {} /\ Vars(e[2]) = {}
          /\ FLt(FInt(0), Eval(40, e[2], NoEnv)) # 1

(* %, & or | applied to something with a variable *)
RECURSIVE HasBits(_)
HasBits(e) ==
  IF IsLeaf(e) THEN FALSE
  ELSE IF Len(e) = 2 THEN HasBits(e[2])
  ELSE (e[1] \in Bits /\ Vars(e) # {}) \/ HasBits(e[2]) \/ HasBits(e[3])
RECURSIVE AnyBits(_)
AnyBits(e) ==
  IF IsLeaf(e) THEN FALSE
  ELSE IF Len(e) = 2 THEN AnyBits(e[2])
  ELSE e[1] \in Bits \/ AnyBits(e[2]) \/ AnyBits(e[3])
(* ... and no absorbing operand may make that part, or the variables in it, disappear *)
RECURSIVE Stays(_), MaybeZero(_)
MaybeZero(e) == Stays(e) = {} /\ (Vars(e) # {} \/ ~FNonZero(Eval(40, e, NoEnv)))
Stays(e) ==
  IF e[1] = "v" THEN {e[2]}
  ELSE IF IsNum(e) THEN {}
  ELSE IF Len(e) = 2 THEN Stays(e[2])
  ELSE IF e[1] \in {"*", "/", "^"} /\ (MaybeZero(e[2]) \/ MaybeZero(e[3])) THEN {}
  ELSE Stays(e[2]) \cup Stays(e[3])
RECURSIVE MustRefuse(_)
MustRefuse(e) ==
  IF IsLeaf(e) THEN FALSE
  ELSE IF Len(e) = 2 THEN MustRefuse(e[2])
  ELSE IF e[1] \in Bits THEN Stays(e) # {}
  ELSE IF e[1] \in {"*", "/", "^"} /\ (MaybeZero(e[2]) \/ MaybeZero(e[3])) THEN FALSE
  ELSE MustRefuse(e[2]) \/ MustRefuse(e[3])
=============================================================================
