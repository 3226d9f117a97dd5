---------------------------------- MODULE Pair ----------------------------------
(* Outcomes of the same command in two builds, as sequences of words and numbers:  *)
(* the words are the same and the numbers agree up to rounding.                     *)
EXTENDS Num754, Integers, Sequences, TLC, Json, IOUtils
Rows == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Close(p, q) == FSame(p, q) \/ DecNear(p, q, "1e-14", "1e-8")
Agree(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ (IF a[i][1] = "n" THEN a[i][2] = b[i][2] \/ Close(a[i][2], b[i][2]) ELSE a[i][2] = b[i][2])
(* Two editions may round differently: numbers and what they decide are judged by System.tla for each by itself; *)
(* here, that the rest is the same.                                                  *)
Words(a) == SelectSeq(a, LAMBDA x : x[1] = "t")
AgreeRest(a, b) == Words(a) = Words(b)
Init == l = 1
Next == /\ l <= Len(Rows) /\ l' = l + 1
        /\ (IF Rows[l].same THEN Agree(Rows[l].a, Rows[l].b) ELSE AgreeRest(Rows[l].a, Rows[l].b)) \/ PrintT("BAD " \o ToString(l))
        /\ (l = Len(Rows) => PrintT("DONE " \o ToString(l)))
Spec == Init /\ [][Next]_l
=============================================================================
