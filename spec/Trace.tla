--------------------------------- MODULE Trace ---------------------------------
(* Checks recorded executions of the library against the specification: the       *)
(* events of the file named by TRACE must be steps of System. One state per event. *)
EXTENDS All, Json, IOUtils

Events == ndJsonDeserialize(IOEnv.TRACE)

(* one variable: TLC then evaluates the verdict on an event only once *)
VARIABLE c
vars == c

Init == TLCSet(1, 0) /\ TLCSet(2, 0) /\ c = [l |-> 1, s |-> InitSys, skip |-> FALSE, bad |-> 0]

Dead == {"crash", "hang", "unknown"}

Verdict(st, ev) ==
  IF ev.out.k \in Dead THEN [why |-> {IF ev.out.k = "unknown" THEN "foreign exception" ELSE ev.out.k}, s |-> st]
  ELSE LET r == Step(st, ev) IN [why |-> TLCEval(r.why \cup Side(r.s, ev) \cup ReportWhy(ev.out)), s |-> r.s]

(* after a rejected event the rest of its session is not judged *)
Judge(d, ev) ==
  LET r == Verdict(d.s, ev) IN
  IF r.why = {} THEN [d EXCEPT !.l = @ + 1, !.skip = FALSE, !.s = r.s]
  ELSE IF PrintT("BAD " \o ToString(d.l) \o " " \o ev.op \o " " \o ToString(r.why))
       THEN [d EXCEPT !.l = @ + 1, !.skip = TRUE, !.bad = @ + 1, !.s = r.s] ELSE d
Advance(d) == IF d.skip /\ Events[d.l].op # "reset" THEN [d EXCEPT !.l = @ + 1] ELSE Judge(d, Events[d.l])

Next ==
  /\ c.l <= Len(Events)
  /\ c' = Advance(c)
  /\ (c.l = Len(Events) => PrintT("DONE " \o ToString(Len(Events)) \o " " \o ToString(c'.bad) \o " " \o ToString(TLCGet(1)) \o " " \o ToString(TLCGet(2))))

Spec == Init /\ [][Next]_vars
=============================================================================
