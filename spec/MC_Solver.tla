------------------------------- MODULE MC_Solver -------------------------------
(* The two iterations over all problems of a small shape: PTS points, a residual    *)
(* at each (0 is a solution), and at each what the linear step comes to: another     *)
(* point, no unique solution, no solution, or a value that is invalid. The step of    *)
(* Levenberg-Marquardt depends on the damping as well. What the runs come to is       *)
(* compared with what the properties say of them, which does not mention the run.     *)
EXTENDS Integers, FiniteSets, TLC, IOUtils

PTS == atoi(IOEnv.PTS)
LM == IOEnv.LM = "1"
MUT == IF "MUT" \in DOMAIN IOEnv THEN IOEnv.MUT ELSE ""
Points == 1..PTS
Levels == IF LM THEN 0..1 ELSE {0}        \* kinds of damping: small, large
Moves == Points \cup {-1, -2, -3}          \* -1: not unique, -2: none, -3: invalid
Shapes == {"square", "under", "over"}

VARIABLES res, move, shape, indet, max,    \* the problem
          q, tab, mu, it, steps, out       \* the run: point, table, damping, count, steps tried
vars == <<res, move, shape, indet, max, q, tab, mu, it, steps, out>>
problem == <<res, move, shape, indet, max>>

Init ==
  /\ res \in [Points -> 0..2]
  (* the damped matrix is never singular here *)
  /\ move \in [Points -> [Levels -> IF LM THEN Points \cup {-3} ELSE Moves]]
  /\ shape \in Shapes /\ indet \in BOOLEAN /\ max \in 0..2
  /\ q = 1 /\ tab = 1 /\ mu = 0 /\ it = 0 /\ steps = 0 /\ out = "?"

End(o) == out' = o /\ UNCHANGED <<problem, q, tab, mu, it, steps>>
(* Newton: zero test, limit, shape, step *)
Newton ==
  IF res[tab] = 0 /\ ~(MUT = "late" /\ it > max) THEN End("ok")
  ELSE IF it > max /\ MUT # "endless" THEN End("limit")
  ELSE IF shape = "over" /\ MUT # "over" THEN End("over")
  ELSE LET m == move[q][0] IN
       CASE m = -3 -> End("invalid")
         [] m = -2 -> End("none")
         [] m = -1 /\ shape = "square" -> End("many")
         [] shape = "under" /\ ~indet /\ m # -2 -> End("indet")
         [] m = -1 -> \E r \in Points : /\ q' = r /\ tab' = r /\ it' = it + 1 /\ steps' = steps + 1 /\ UNCHANGED <<problem, mu, out>>
         [] OTHER -> /\ q' = m /\ tab' = m /\ it' = it + 1 /\ steps' = steps + 1 /\ UNCHANGED <<problem, mu, out>>
(* Levenberg-Marquardt: mu = 0 marks the start of a round, where the zero test is. The table holds the point tried last. *)
Level(k) == IF k = 0 THEN 0 ELSE 1
Marquardt ==
  IF mu = 0 /\ res[tab] = 0 THEN End("ok")
  ELSE IF mu = 0 /\ shape = "over" THEN End("over")
  ELSE IF mu = 0 /\ shape = "under" /\ ~indet THEN End("indet")
  ELSE LET m == move[tab][Level(mu)]
           full == it = max
       IN IF m = -3 THEN End("invalid")
          ELSE LET better == res[m] < res[q] \/ (MUT = "equal" /\ res[m] = res[q]) IN
               /\ tab' = (IF MUT = "table" /\ better THEN tab ELSE m)
               /\ q' = (IF better \/ MUT = "anyway" THEN m ELSE q)
               /\ mu' = (IF better \/ MUT = "restart" THEN 0 ELSE mu + 1)
               /\ it' = (IF MUT = "uncounted" /\ ~better THEN it ELSE it + 1) /\ steps' = steps + 1
               /\ out' = (IF full THEN "limit" ELSE "?")
               /\ UNCHANGED problem
Next == out = "?" /\ (IF LM THEN Marquardt ELSE Newton)
Bounded == steps <= 8
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* what is returned is a solution *)
Sound == out = "ok" => res[tab] = 0 /\ res[q] = 0
(* a start that solves is returned, whatever the shape; else the shape is refused at the start *)
Start == /\ (res[1] = 0 /\ out # "?" => out = "ok" /\ steps = 0)
         /\ (res[1] # 0 /\ shape = "over" /\ out # "?" => out = "over" /\ steps = 0)
         /\ out = "over" => shape = "over"
         /\ out = "indet" => shape = "under" /\ ~indet
         /\ out = "many" => shape = "square"
(* never more steps than allowed, and the limit is not reported before *)
Limit == /\ steps <= max + 1
         /\ out = "limit" => steps = max + 1
         /\ (~LM /\ out = "limit") => res[tab] # 0
(* the residual of the point kept never grows; a refused step leaves the point *)
Descent == [][LM /\ q' # q => res[q'] < res[q]]_vars
Kept == [][mu' = 0 /\ steps' # steps => tab' = q']_vars
Ends == <>(out # "?")
=============================================================================
