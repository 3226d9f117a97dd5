--------------------------------- MODULE Reports ---------------------------------
(* What failures must say. Every mathematical error names its type: its message     *)
(* contains the words for that type and no words of another.                        *)
EXTENDS Deep
LOCAL INSTANCE SequencesExt

(* the types in the order of the enumeration, with words of their own *)
Words == <<"invalid number", "illegal char", "variable name", "invalid expression", "empty", "undefined", "substitutions", "not linked", "domain", "number count", "redefined",
           "indeterminate", "singular", "infinite", "overdetermined", "size">>
TypeNo == [INVALID_NUMBER |-> 0, INDETERMINATE |-> 11, SINGULAR |-> 12, INFINITE |-> 13, OVER_DETERMINED |-> 14, SIZE |-> 15]
Codes(w) == StrCodes(w)
Within2(c, w) == \E i \in 1..(Len(c) - Len(w) + 1) : SubSeq(c, i, i + Len(w) - 1) = w
(* c, a message, is for type e and no other; x is what the caller added *)
NamesType(c, e) == \A i \in 1..Len(Words) : Within2(c, Codes(Words[i])) <=> i = e + 1
MathWhy(o) == IF o.k = "math" /\ o.e \in 0..15 /\ ~Within2(o.what, Codes(Words[o.e + 1])) THEN {"the message of error " \o ToString(o.e) \o " is " \o CodesToStr(o.what)} ELSE {}
(* every error says something, and a mathematical one names its type *)
ReportWhy(o) ==
  MathWhy(o) \cup (IF "what" \in DOMAIN o /\ o.what = <<>> THEN {"an empty message"} ELSE {})

DoErrInfo(s, ev) ==
  LET o == ev.out IN
  [why |-> (IF o.k = "ok" /\ o.et = ev.e /\ NamesType(o.info, ev.e) /\ Within2(o.what, o.info) /\ Within2(o.what, ev.t) THEN {}
            ELSE {"error type " \o ToString(ev.e) \o " is reported as " \o ToString(o.et) \o ", " \o CodesToStr(o.info) \o ", " \o CodesToStr(o.what)}),
   s |-> s]
=============================================================================
