------------------------------- MODULE MC_VarsTab -------------------------------
(* Variable tables as the library keeps them: the names in an order, a vector of     *)
(* values in that order, and a map from names to values. Checked for every history    *)
(* of making, copying and setting two tables over NAMES names: the three describe one  *)
(* map, the one the history of operations gives; tables are equal exactly when their    *)
(* maps are; a copy does not follow its original.                                       *)
(* MUT plants a fault.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils

NN == atoi(IOEnv.NAMES)
MUT == IF "MUT" \in DOMAIN IOEnv THEN IOEnv.MUT ELSE ""
Names == 1..NN
Vals == {0, 1}
Tabs == {1, 2}
Orders == TLCEval(UNION {{q \in [1..Cardinality(d) -> d] : \A i, j \in DOMAIN q : i # j => q[i] # q[j]} : d \in SUBSET Names})
Set(q) == {q[i] : i \in DOMAIN q}
Sorted(d) == CHOOSE q \in Orders : Set(q) = d /\ \A i, j \in DOMAIN q : i < j => q[i] < q[j]

VARIABLES ns, vs, tb,  \* of each table: names, values, map
          m            \* the map that the history gives
vars == <<ns, vs, tb, m>>

Init == /\ ns = [t \in Tabs |-> <<>>] /\ vs = [t \in Tabs |-> <<>>] /\ tb = [t \in Tabs |-> <<>>] /\ m = [t \in Tabs |-> <<>>]
(* from names in an order, with one value *)
MakeVec(t, q, x) ==
  /\ ns' = [ns EXCEPT ![t] = q] /\ vs' = [vs EXCEPT ![t] = [i \in DOMAIN q |-> x]]
  /\ tb' = [tb EXCEPT ![t] = [n \in Set(q) |-> x]] /\ m' = [m EXCEPT ![t] = [n \in Set(q) |-> x]]
(* from a map: the names in ascending order *)
MakeMap(t, f) ==
  LET q == Sorted(DOMAIN f) IN
  /\ ns' = [ns EXCEPT ![t] = q] /\ vs' = [vs EXCEPT ![t] = [i \in DOMAIN q |-> f[IF MUT = "shift" /\ i < Len(q) THEN q[i + 1] ELSE q[i]]]]
  /\ tb' = [tb EXCEPT ![t] = f] /\ m' = [m EXCEPT ![t] = f]
SetValues(t, v) ==
  /\ v \in [DOMAIN ns[t] -> Vals]
  /\ vs' = [vs EXCEPT ![t] = v] /\ UNCHANGED ns
  /\ tb' = [tb EXCEPT ![t] = IF MUT = "stale" THEN @
                             ELSE [n \in DOMAIN @ |-> v[IF MUT = "byrank" THEN CHOOSE i \in DOMAIN ns[t] : Sorted(Set(ns[t]))[i] = n
                                                        ELSE CHOOSE i \in DOMAIN ns[t] : ns[t][i] = n]]]
  /\ m' = [m EXCEPT ![t] = [n \in Set(ns[t]) |-> v[CHOOSE i \in DOMAIN ns[t] : ns[t][i] = n]]]
Copy(t, u) ==
  /\ ns' = [ns EXCEPT ![t] = ns[u]] /\ vs' = [vs EXCEPT ![t] = vs[u]]
  /\ tb' = [tb EXCEPT ![t] = IF MUT = "shallow" THEN @ ELSE tb[u]] /\ m' = [m EXCEPT ![t] = m[u]]
Next == \E t \in Tabs :
          \/ \E q \in Orders, x \in Vals : MakeVec(t, q, x)
          \/ \E d \in SUBSET Names : \E f \in [d -> Vals] : MakeMap(t, f)
          \/ \E v \in [DOMAIN ns[t] -> Vals] : SetValues(t, v)
          \/ \E u \in Tabs : Copy(t, u)
Spec == Init /\ [][Next]_vars

OneMap == \A t \in Tabs : /\ tb[t] = m[t] /\ Set(ns[t]) = DOMAIN m[t] /\ Len(ns[t]) = Cardinality(DOMAIN m[t])
                          /\ DOMAIN vs[t] = DOMAIN ns[t] /\ \A i \in DOMAIN ns[t] : vs[t][i] = m[t][ns[t][i]]
(* equality: as many values, and the maps' pairs in order *)
Equal(a, b) == /\ Len(vs[a]) = Len(vs[b])
               /\ LET p == Sorted(DOMAIN tb[a]) q == Sorted(DOMAIN tb[b]) IN
                  \A i \in DOMAIN p : (MUT = "anyname" \/ p[i] = q[i]) /\ tb[a][p[i]] = tb[b][q[i]]
EqualIsMap == \A a, b \in Tabs : Equal(a, b) <=> m[a] = m[b]
Frame == [][\A t \in Tabs : (\A u \in Tabs : u = t \/ (ns'[u] = ns[u] /\ tb'[u] = tb[u] /\ vs'[u] = vs[u])) \/ (ns'[t] = ns[t] /\ tb'[t] = tb[t] /\ vs'[t] = vs[t])]_vars
=============================================================================
