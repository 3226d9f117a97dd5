--------------------------------- MODULE MC_Deep ---------------------------------
(* The closed forms of Deep hold for every short chain. *)
EXTENDS Deep
VARIABLES kind, n, x
Init == TLCSet(1, 0) /\ TLCSet(2, 0) /\ kind \in Kinds /\ n = 0 /\ x \in {"0", "1", "0.5", "-3"} /\ PointOk(kind, x)
Next == n < 9 /\ n' = n + 1 /\ UNCHANGED <<kind, x>>
Spec == Init /\ [][Next]_<<kind, n, x>>
Agree ==
  LET e == Chain(kind, n)
      env == [y \in {"x"} |-> FLit(Ieee, x)]
      d == DerivAt(36, e, "x", 1, env)
  IN /\ FMeet(48, Eval(48, e, env), ValueOf(kind, n, x))
     /\ Vars(e) = {"x"}
     /\ (FTag(d) = 0 => FMeet(36, d, FInt(SlopeOf(kind, n))))
     /\ (kind \in Flat =>
          LET d2 == DerivAt(36, e, "x", 2, env) IN FTag(d2) = 0 => FMeet(36, d2, FInt(0)))
     /\ (kind \notin {"sin", "subL", "subR", "zig", "sgn"} /\ x = "1" => FTag(d) = 0)
=============================================================================
