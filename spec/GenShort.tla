------------------------------- MODULE GenShort --------------------------------
(* All short histories of two expression variables a and b: every sequence of LEN *)
(* commands out of Cmds, from a = x+y, b = -x. Printed like those of GenHist.      *)
EXTENDS All, Json, IOUtils

Depth == atoi(IOEnv.D)
VARIABLES s, hist
vars == <<s, hist>>
Two == {"a", "b"}
Cat == {"c", "m"}
F1 == <<"v", "x">>
Cmds ==
  {[op |-> "cas", f |-> f, a |-> x, b |-> y, cb |-> cb] : f \in {"-", "^"}, x \in Two, y \in Two, cb \in Cat}
  \cup {[op |-> "bin", f |-> "-", a |-> x, ca |-> ca, b |-> y, cb |-> cb, d |-> d] : x \in Two, y \in Two, ca \in Cat, cb \in Cat, d \in Two}
  \cup {[op |-> "un", f |-> "neg", a |-> x, ca |-> ca, d |-> d] : x \in Two, ca \in Cat, d \in Two}
  \cup {[op |-> o, a |-> x, d |-> d] : o \in {"clone", "move"}, x \in Two, d \in Two}
  \cup {[op |-> "subs", kind |-> "one", a |-> x, ca |-> ca, d |-> d, v |-> "x", b |-> y] : x \in Two, y \in Two, ca \in Cat, d \in Two}
  \cup {[op |-> "simp", a |-> x, pts |-> << [x |-> "1.31", y |-> "0.67"] >>] : x \in Two}
  \cup {[op |-> "diff", a |-> x, ca |-> ca, d |-> "b", v |-> "x", n |-> 1, pts |-> << [x |-> "1.31", y |-> "0.67"] >>] : x \in Two, ca \in Cat}
Fits(c) ==
  /\ \A x \in Args(c) : Get(s, x).k # "null"
  /\ c.op = "bin" => c.a # c.b \/ (c.ca = "c" /\ c.cb = "c")
  /\ c.op = "cas" => c.a # c.b \/ c.cb = "c"
  /\ c.op = "subs" => c.a # c.b \/ c.ca = "c"
Do(c) == /\ s' = Step(s, c @@ ("out" :> [k |-> "ok", self |-> TRUE, v |-> "0.5", b |-> TRUE])).s
         /\ hist' = Append(hist, c)
First == << [op |-> "build", d |-> "a", e |-> <<"+", <<"v", "x">>, <<"v", "y">>>>], [op |-> "build", d |-> "b", e |-> <<"neg", <<"v", "x">>>>] >>
Init == TLCSet(1, 0) /\ TLCSet(2, 0) /\ hist = First
        /\ s = Step(Step(InitSys, First[1] @@ ("out" :> [k |-> "ok"])).s, First[2] @@ ("out" :> [k |-> "ok"])).s
Next == /\ Len(hist) < Depth + 2
        /\ \E c \in Cmds : Fits(c) /\ Do(c)
Emit == Len(hist) = Depth + 2 => PrintT("HIST " \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================
