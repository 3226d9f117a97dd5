---------------------------------- MODULE Deep ----------------------------------
(* Long chains of one operator, any depth: their values, derivatives and variables  *)
(* in closed form, at points where the arithmetic is exact. MC_Deep checks the      *)
(* closed forms against the evaluator and the jets for short chains.                *)
EXTENDS Solver
LOCAL INSTANCE SequencesExt

Kinds == {"addL", "subL", "mulL", "addR", "subR", "divR", "powR", "powL", "neg", "negp", "paren", "sin", "funs", "zig", "sgn", "comb", "bal"}
X == <<"v", "x">>
Odd(i) == i % 2 = 1
(* step i of a chain, over what steps 1 .. i - 1 made *)
ChainStep(kind, i, a) ==
  CASE kind = "addL" -> <<"+", a, X>> [] kind = "subL" -> <<"-", a, X>> [] kind = "mulL" -> <<"*", a, <<"n", "1">>>>
    [] kind = "addR" -> <<"+", X, a>> [] kind = "subR" -> <<"-", X, a>> [] kind = "divR" -> <<"/", X, a>>
    [] kind = "powR" -> <<"^", X, a>> [] kind = "powL" -> <<"^", a, <<"n", "1">>>>
    [] kind \in {"neg", "negp"} -> <<"neg", a>> [] kind = "paren" -> a [] kind = "sin" -> <<"sin", a>>
    [] kind = "funs" -> IF Odd(i) THEN <<"exp", a>> ELSE <<"log", a>>
    [] kind = "zig" -> IF Odd(i) THEN <<"-", a, X>> ELSE <<"-", X, a>>
    [] kind = "sgn" -> IF Odd(i) THEN <<"neg", a>> ELSE <<"+", X, a>>
    [] kind = "comb" -> <<"+", <<"*", X, <<"n", "1">>>>, a>>
RECURSIVE Balanced(_)
Balanced(n) == IF n = 0 THEN X ELSE <<"+", Balanced((n - 1) \div 2), Balanced(n - 1 - ((n - 1) \div 2))>>
Chain(kind, n) == IF kind = "bal" THEN Balanced(n) ELSE FoldLeft(LAMBDA a, i : ChainStep(kind, i, a), X, [i \in 1..n |-> i])

(* points at which a kind is judged: functions at 0, powers at 1, quotients not at 0 *)
PointOk(kind, x) == CASE kind \in {"sin", "funs"} -> x = "0" [] kind \in {"powR", "powL"} -> x = "1" [] kind = "divR" -> x # "0" [] OTHER -> TRUE
Even(n) == n % 2 = 0
ValueOf(kind, n, x) ==
  LET v == FLit(Ieee, x) IN
  CASE kind \in {"addL", "addR", "comb", "bal"} -> FMul(Ieee, FInt(n + 1), v)
    [] kind = "subL" -> FMul(Ieee, FInt(1 - n), v)
    [] kind \in {"subR", "zig"} -> IF Even(n) THEN v ELSE FInt(0)
    [] kind \in {"divR", "funs"} -> IF Even(n) THEN v ELSE FInt(1)
    [] kind \in {"neg", "negp"} -> IF Even(n) THEN v ELSE FNeg(Ieee, v)
    [] kind = "sgn" -> IF n % 4 = 0 THEN v ELSE IF n % 4 = 1 THEN FNeg(Ieee, v) ELSE FInt(0)
    [] OTHER -> v
SlopeOf(kind, n) ==
  CASE kind \in {"addL", "addR", "comb", "bal"} -> n + 1
    [] kind = "subL" -> 1 - n
    [] kind \in {"subR", "zig", "divR"} -> IF Even(n) THEN 1 ELSE 0
    [] kind \in {"neg", "negp"} -> IF Even(n) THEN 1 ELSE -1
    [] kind = "sgn" -> IF n % 4 = 0 THEN 1 ELSE IF n % 4 = 1 THEN -1 ELSE 0
    [] OTHER -> 1
(* the kinds whose value is linear in x: their second derivative is 0 *)
Flat == {"addL", "subL", "mulL", "addR", "subR", "neg", "negp", "paren", "zig", "sgn", "comb", "bal"}

DeepWhy(ev, o) ==
  LET v == ValueOf(ev.kind, ev.n, ev.x)
      want == Range(ev.do)
      has(r) == r.k = "ok" /\ FHas(48, v, r.v)
      twice(r) == r.k = "ok" /\ FHas(48, FMul(Ieee, FInt(2), v), r.v)
      isInt(r, k) == r.k = "ok" /\ FHas(36, FInt(k), r.v)
  IN IF ~PointOk(ev.kind, ev.x) THEN {"a point without closed form"} ELSE
     IF o.k # "ok" THEN {"failed with " \o Show(o)} ELSE
     (IF "vars" \in want /\ o.vars # <<"x">> THEN {"the variables are " \o Show(o.vars)} ELSE {})
     \cup (IF "eq" \in want /\ ~o.eq THEN {"a copy is not equal"} ELSE {})
     \cup (IF "neq" \in want /\ o.neq THEN {"equal to a chain with another leaf"} ELSE {})
     \cup (IF "neq" \in want /\ o.vars2 # (IF ev.n = 0 \/ ev.kind \in {"mulL", "powL", "neg", "negp", "paren", "sin", "funs"} THEN <<"y">>
                                           ELSE IF ev.kind = "sgn" /\ ev.n = 1 THEN <<"y">> ELSE <<"x", "y">>)
           THEN {"the variables of a chain with another leaf are " \o Show(o.vars2)} ELSE {})
     \cup (IF "subs" \in want /\ ~has(o.val) THEN {"the value is " \o Show(o.val)} ELSE {})
     \cup (IF "subsm" \in want /\ ~has(o.val2) THEN {"the value after substitution is " \o Show(o.val2)} ELSE {})
     \cup (IF "subd" \in want /\ ~twice(o.vald) THEN {"the value where it is substituted twice is " \o Show(o.vald)} ELSE {})
     \cup (IF "self" \in want /\ ~twice(o.vals) THEN {"the value after assignments with itself is " \o Show(o.vals)} ELSE {})
     \cup (IF "unbound" \in want /\ o.unb.k # "runtime" THEN {"evaluated with a variable: " \o Show(o.unb)} ELSE {})
     \cup (IF "simp" \in want /\ ~has(o.simp) THEN {"the simplified value is " \o Show(o.simp)} ELSE {})
     \cup (IF "diff" \in want /\ ~isInt(o.diff, SlopeOf(ev.kind, ev.n)) THEN {"the derivative is " \o Show(o.diff)} ELSE {})
     \cup (IF "diff2" \in want /\ (ev.kind \notin Flat \/ ~isInt(o.diff2, 0)) THEN {"the second derivative is " \o Show(o.diff2)} ELSE {})
     \cup (IF "mat" \in want /\ (o.mvars # <<"q", "x">> \/ ~o.meq \/ ~has(o.mval)) THEN {"in a matrix: " \o Show(<<o.mvars, o.meq, o.mval>>)} ELSE {})
     \cup (IF "jac" \in want /\ ~isInt(o.jac, SlopeOf(ev.kind, ev.n)) THEN {"the Jacobian is " \o Show(o.jac)} ELSE {})
     \cup (IF "str" \in want /\ ~(has(o.rt) /\ (ev.kind = "paren" \/ o.len > ev.n)) THEN {"the text, " \o Show(o.len) \o " characters, is read as " \o Show(o.rt)} ELSE {})
DoDeep(s, ev) == [why |-> {w \o " for a chain " \o ev.kind \o " of " \o ToString(ev.n) : w \in DeepWhy(ev, ev.out)}, s |-> s]

(* long names and literals *)
LongOk(ev, o) ==
  /\ o.k = "ok"
  /\ CASE ev.kind = "name" -> o.legal /\ o.same
       [] ev.kind = "badname" -> ~o.legal /\ o.pe
       [] OTHER -> FEqStr(o.v, "2")
DoLong(s, ev) == [why |-> IF LongOk(ev, ev.out) THEN {} ELSE {"long " \o ev.kind \o " of " \o ToString(ev.n) \o ": " \o Show(ev.out)}, s |-> s]
=============================================================================
