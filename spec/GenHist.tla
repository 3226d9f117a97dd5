-------------------------------- MODULE GenHist --------------------------------
(* Random histories of expression variables, drawn from System with              *)
(* tlc -simulate: each behaviour is printed as one line of JSON commands. The     *)
(* state is the state of System, so that the commands fit it (no empty operands,  *)
(* no huge trees). {Rnd(S)} is a set with one random element: \E over it binds it. *)
EXTENDS All, Json, IOUtils

Depth == atoi(IOEnv.D)
SlotNames == {"a", "b", "c", "d"}
VNames == {"x", "y", "z"}
VARIABLES s, hist, done
vars == <<s, hist, done>>

Atoms == {<<"v", "x">>, <<"v", "y">>, <<"v", "z">>, <<"n", "2">>, <<"n", "0.5">>, <<"n", "3">>, <<"n", "-1">>, <<"n", "0">>, <<"n", "1">>}
Small == Atoms \cup {<<f, a>> : f \in {"neg", "sin", "exp", "sqrt"}, a \in Atoms}
         \cup {<<o, a, b>> : o \in {"+", "-", "*", "/", "^"}, a \in Atoms, b \in Atoms}
Cmp == {"+", "-", "*", "/", "^"}
Fs == {"neg", "pos", "sin", "cos", "atan", "exp", "sqrt", "log"}
Cat == {"c", "m"}
Points == << [x |-> "1.31", y |-> "0.67", z |-> "2.09"] >>

Full(x) == Get(s, x).k \notin {"null", "any"}
SizeOf(x) == IF Full(x) THEN (IF Get(s, x).k = "der" THEN 3 * Size(Get(s, x).e) ELSE Size(Get(s, x).e)) ELSE 0
FullSlots == {x \in SlotNames : Full(x)}
LightSlots == {x \in FullSlots : SizeOf(x) <= 9}
Pick1(S) == IF S = {} THEN {} ELSE {RandomElement(S)}

(* the command with its normal outcome leads to the next state *)
Do(c) == /\ s' = Step(s, c @@ ("out" :> [k |-> "ok", self |-> TRUE, v |-> "0.5", b |-> TRUE])).s
         /\ hist' = Append(hist, c) /\ done' = FALSE

ABuild == \E d \in Pick1(SlotNames), e \in Pick1(Small), st \in Pick1(0..9999) : Do([op |-> "build", d |-> d, e |-> e, st |-> st])
AUn == \E d \in Pick1(SlotNames), a \in Pick1(FullSlots), f \in Pick1(Fs), ca \in Pick1(Cat) :
        SizeOf(a) < 12 /\ Do([op |-> "un", f |-> f, a |-> a, ca |-> ca, d |-> d])
ABin == \E d \in Pick1(SlotNames), a \in Pick1(LightSlots), b \in Pick1(LightSlots), ca \in Pick1(Cat), cb \in Pick1(Cat), f \in Pick1(Cmp) :
        (a # b \/ (ca = "c" /\ cb = "c")) /\ Do([op |-> "bin", f |-> f, a |-> a, ca |-> ca, b |-> b, cb |-> cb, d |-> d])
ACas == \E a \in Pick1(LightSlots), b \in Pick1(LightSlots), cb \in Pick1(Cat), f \in Pick1(Cmp) :
        (a # b \/ cb = "c") /\ Do([op |-> "cas", f |-> f, a |-> a, b |-> b, cb |-> cb])
ASelf == \E f \in Pick1(Cmp), a \in Pick1(LightSlots) : Do([op |-> "cas", f |-> f, a |-> a, b |-> a, cb |-> "c"])
ACpy == \E d \in Pick1(SlotNames), a \in Pick1(FullSlots) : Do([op |-> "clone", a |-> a, d |-> d])
AMov == \E d \in Pick1(SlotNames), a \in Pick1(SlotNames) : Do([op |-> "move", a |-> a, d |-> d])
ASwp == \E d \in Pick1(SlotNames), a \in Pick1(FullSlots) : Do([op |-> "swap", a |-> a, b |-> d])
ADrp == \E a \in Pick1(FullSlots) : RandomElement(1..3) = 1 /\ Do([op |-> "drop", a |-> a])
ASub1 == \E d \in Pick1(SlotNames), a \in Pick1(LightSlots), b \in Pick1(LightSlots), ca \in Pick1(Cat), x \in Pick1(VNames) :
        (a # b \/ ca = "c") /\ Do([op |-> "subs", kind |-> "one", a |-> a, ca |-> ca, d |-> d, v |-> x, b |-> b])
ASub2 == \E d \in Pick1(SlotNames), kind \in Pick1({"vec", "mapn"}), a \in Pick1(LightSlots), ca \in Pick1(Cat), b1 \in Pick1(LightSlots), b2 \in Pick1(LightSlots), x1 \in Pick1(VNames) :
        \E x2 \in Pick1(VNames \ {x1}) :
        ((a # b1 /\ a # b2) \/ ca = "c")
        /\ Do([op |-> "subs", kind |-> kind, a |-> a, ca |-> ca, d |-> d, vs |-> <<x1, x2>>, bs |-> <<b1, b2>>])
ASubn == \E d \in Pick1(SlotNames), kind \in Pick1({"num", "table"}), a \in Pick1(FullSlots), ca \in Pick1(Cat), ns \in Pick1(SUBSET VNames \ {{}}) :
        \E m \in Pick1([ns -> {"2", "0.5", "1.75", "-3"}]) : Do([op |-> "subs", kind |-> kind, a |-> a, ca |-> ca, d |-> d, m |-> m])
ADif == \E d \in Pick1(SlotNames), a \in Pick1(LightSlots), ca \in Pick1(Cat), x \in Pick1(VNames) :
        (Get(s, a).k # "der" \/ SizeOf(a) <= 6) /\ Do([op |-> "diff", a |-> a, ca |-> ca, d |-> d, v |-> x, n |-> 1, pts |-> Points])
ASmp == \E a \in Pick1(FullSlots) : Do([op |-> "simp", a |-> a, pts |-> Points])
AEqu == \E a \in Pick1(FullSlots), b \in Pick1(FullSlots) : Do([op |-> "eq", a |-> a, b |-> b])
AClc == \E a \in Pick1({x \in FullSlots : Get(s, x).k = "ast" /\ Vars(Get(s, x).e) = {}}) : Do([op |-> "calc", a |-> a])
APrs == \E d \in Pick1(SlotNames), t \in Pick1({<<120, 43, 121, 42, 122>>, <<45, 120, 94, 50>>, <<115, 105, 110, 40, 120, 45, 121, 41>>, <<50, 42, 40, 122, 47, 121, 41>>}) :
        Do([op |-> "parse", d |-> d, t |-> t])

Init == TLCSet(1, 0) /\ TLCSet(2, 0) /\ s = InitSys /\ hist = <<>> /\ done = FALSE
Next == \/ /\ Len(hist) < Depth
           /\ \/ ABuild \/ AUn \/ ABin \/ ACas \/ ASelf \/ ACpy \/ AMov \/ ASwp \/ ADrp \/ ASub1 \/ ASub2 \/ ASubn
              \/ ADif \/ ASmp \/ AEqu \/ AClc \/ APrs
        \/ /\ Len(hist) = Depth /\ ~done /\ PrintT("HIST " \o ToJson(hist)) /\ done' = TRUE /\ UNCHANGED <<s, hist>>
Spec == Init /\ [][Next]_vars
=============================================================================
