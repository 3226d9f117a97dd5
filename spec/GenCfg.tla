--------------------------------- MODULE GenCfg ---------------------------------
(* All short histories of the settings: every sequence of D changes and resets.    *)
(* Printed like the histories of GenHist. Checked on the way: a history leaves a    *)
(* setting at its default exactly if its last change was a reset, a change to the   *)
(* default, or none (Last).                                                         *)
EXTENDS All, Json, IOUtils

Depth == atoi(IOEnv.D)
VARIABLES s, hist
vars == <<s, hist>>
CfgValues == [throw |-> {FALSE, TRUE}, eps |-> {"0.001", "1e-12"}, log |-> {0, 6}, max |-> {3, 0}, method |-> {1, 0}, init |-> {"-2.5", "4"}, indet |-> {TRUE, FALSE}]
SetOne(f, x) == [op |-> "cfg", set |-> [g \in {f} |-> x]]
Cmds == UNION {{SetOne(f, x) : x \in CfgValues[f]} : f \in DOMAIN CfgValues} \cup {[op |-> "cfgreset"], [op |-> "reset"]}
After(c) == IF c.op = "cfg" THEN SetCfg(s.cfg, c.set) ELSE Defaults
Do(c) == /\ s' = Step(s, c @@ ("out" :> ([k |-> "ok"] @@ After(c)))).s
         /\ hist' = Append(hist, c)
Init == TLCSet(1, 0) /\ TLCSet(2, 0) /\ hist = <<>> /\ s = InitSys
Next == /\ Len(hist) < Depth
        /\ \E c \in Cmds : Do(c)
RECURSIVE LastOf(_, _)
LastOf(f, k) == IF k = 0 THEN Defaults[f] ELSE IF hist[k].op # "cfg" THEN Defaults[f] ELSE IF f \in DOMAIN hist[k].set THEN hist[k].set[f] ELSE LastOf(f, k - 1)
Last == \A f \in DOMAIN CfgValues : s.cfg[f] = LastOf(f, Len(hist))
Emit == Len(hist) = Depth => PrintT("HIST " \o ToJson(hist))
Spec == Init /\ [][Next]_vars
=============================================================================
