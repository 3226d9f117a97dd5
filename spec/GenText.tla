------------------------------- MODULE GenText -------------------------------
(* Writes every text made of LOW to L pieces of an alphabet, one line             *)
(* {t: codes, ok: the grammar accepts it} each, to the file OUT. Alphabets:       *)
(* tokens (joined, or separated by spaces), characters, or "chains" (operands     *)
(* and L binary operators, with a sign or function before any one operand).       *)
EXTENDS Grammar, TLC, Json, IOUtils

L == atoi(IOEnv.L)
Low == atoi(IOEnv.LOW)
Sep == IF IOEnv.ALPHABET = "spaced" THEN <<32>> ELSE <<>>
Alphabet == CASE IOEnv.ALPHABET \in {"tokens", "spaced"} -> << <<120>>, <<51>>, <<43>>, <<45>>, <<42>>, <<94>>, <<37>>, <<40>>, <<41>>, <<115, 105, 110>> >>
              [] IOEnv.ALPHABET = "chars" -> << <<120>>, <<50>>, <<46>>, <<101>>, <<43>>, <<45>>, <<40>>, <<41>>, <<32>>, <<36>>, <<95>> >>
              [] OTHER -> <<>>
B == Len(Alphabet)
RECURSIVE Pow(_, _), Piece(_, _), Total(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Piece(n, k) == IF k = 0 THEN <<>> ELSE IF k = 1 THEN Alphabet[(n % B) + 1]
               ELSE Alphabet[(n % B) + 1] \o Sep \o Piece(n \div B, k - 1)
Total(lo, hi) == IF lo > hi THEN 0 ELSE Pow(B, lo) + Total(lo + 1, hi)
RECURSIVE Nth(_, _)
Nth(n, k) == IF n < Pow(B, k) THEN Piece(n, k) ELSE Nth(n - Pow(B, k), k + 1)

Ops == << <<43>>, <<45>>, <<42>>, <<47>>, <<94>>, <<37>>, <<38>>, <<124>> >>
Operand == << <<120>>, <<121>>, <<122>>, <<50>>, <<119>>, <<51>> >>
Pre == << <<>>, <<45>>, <<43>>, <<115, 113, 114, 116, 32>>, <<45, 45>> >>
RECURSIVE Chain(_, _, _, _)     \* n codes the operators, the operand at position at gets the prefix p
Chain(n, k, at, p) == (IF at = k THEN Pre[p] ELSE <<>>) \o Operand[L + 1 - k] \o
                      (IF k = 0 THEN <<>> ELSE Ops[(n % 8) + 1] \o Chain(n \div 8, k - 1, at, p))
Chains == LET c == Pow(8, L) IN
   [i \in 1..(c * (1 + 4 * (L + 1))) |->
      LET n == (i - 1) % c  m == (i - 1) \div c IN
      IF m = 0 THEN Chain(n, L, 0, 1) ELSE Chain(n, L, (m - 1) % (L + 1), 2 + ((m - 1) \div (L + 1)))]

Texts == IF IOEnv.ALPHABET = "chains" THEN Chains ELSE [i \in 1..Total(Low, L) |-> Nth(i - 1, Low)]
ASSUME LET q == Texts IN ndJsonSerialize(IOEnv.OUT, [i \in 1..Len(q) |-> [t |-> q[i], ok |-> WellFormed(Scan(Tokens(q[i])))]])
=============================================================================
