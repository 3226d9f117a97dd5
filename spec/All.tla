---------------------------------- MODULE All ----------------------------------
(* Every command of the system. *)
EXTENDS Reports

Step(s, ev) ==
  CASE ev.op \in ExprOps -> DoExpr(s, ev)
    [] ev.op \in {"cfg", "cfgget", "cfgreset"} -> DoCfg(s, ev)
    [] ev.op = "reset" -> DoReset(s, ev)
    [] ev.op = "mat" -> DoMat(s, ev)
    [] ev.op = "sym" -> DoSym(s, ev)
    [] ev.op = "vt" -> DoVt(s, ev)
    [] ev.op = "linear" -> DoLinear(s, ev)
    [] ev.op = "armijo" -> DoArmijo(s, ev)
    [] ev.op = "findalpha" -> DoSecant(s, ev)
    [] ev.op = "solve" -> DoSolve(s, ev)
    [] ev.op = "deep" -> DoDeep(s, ev)
    [] ev.op = "long" -> DoLong(s, ev)
    [] ev.op = "errinfo" -> DoErrInfo(s, ev)
=============================================================================
