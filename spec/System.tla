-------------------------------- MODULE System --------------------------------
(* The library as a state machine. The state holds the settings, named expression *)
(* variables ("slots"), symbolic matrices and variable tables. A command ev with  *)
(* its observed outcome ev.out is a step; Step gives the next state and the       *)
(* reasons, if any, why the outcome is not one the specification allows.          *)
EXTENDS Expr, Deriv, Grammar, TLC

Defaults == [throw |-> TRUE, eps |-> "1e-09", log |-> 3, max |-> 100, method |-> 0, init |-> "1", indet |-> FALSE]
Empty == [x \in {} |-> x]
InitSys == [sl |-> Empty, mats |-> Empty, tabs |-> Empty, cfg |-> Defaults, n |-> 1]

Null       == [k |-> "null"]
Unknown        == [k |-> "any"]                                   \* nothing is specified about it
Ast(e)     == [k |-> "ast", e |-> e, id |-> 0]                \* exactly this tree
Loose(e, n) == [k |-> "loose", e |-> e, id |-> n]             \* some tree with the values of e where e is defined
Der(e, vs, n) == [k |-> "der", e |-> e, vs |-> vs, id |-> n]  \* some tree for a (mixed) derivative of e

Get(s, a) == IF a \in DOMAIN s.sl THEN s.sl[a] ELSE Null
Put(s, a, v) == [s EXCEPT !.sl = (a :> v) @@ @, !.n = @ + 1]
Tree(v) == IF v.k = "der" THEN MixedTree(v.e, v.vs) ELSE v.e
HasTree(v) == v.k \in {"ast", "loose", "der"}

(* the value of an operation that builds the tree e from the operands vs *)
Combine(s, vs, e) ==
  IF \E i \in 1..Len(vs) : ~HasTree(vs[i]) THEN Unknown
  ELSE IF \A i \in 1..Len(vs) : vs[i].k = "ast" THEN Ast(e) ELSE Loose(e, s.n)

U(s) == IF s.cfg.throw THEN 48 ELSE -48
Env(pt) == [x \in DOMAIN pt |-> FLit(-48, pt[x])]

Errs == {"runtime", "math", "range", "std"}
InvalidNumber == 0
Ok(s) == [why |-> {}, s |-> s]
Res(cond, why, s) == [why |-> IF cond THEN {} ELSE {why}, s |-> s]
Show(x) == ToString(x)

------------------------------------------------------------------------------
(* observing values; registers 1 and 2 count the values that were and could not be judged *)
Tally(b) == IF FTag(b) = 2 THEN TLCSet(2, TLCGet(2) + 1) ELSE TLCSet(1, TLCGet(1) + 1)
Near(u, b, o) ==
  Tally(b) /\
  CASE FTag(b) = 0 -> o.k = "ok" /\ FHas(u, b, o.v)
    [] FTag(b) = 1 -> o.k = "math" /\ o.e = InvalidNumber
    [] OTHER -> o.k = "ok" \/ (o.k = "math" /\ o.e = InvalidNumber)
NearIfDefined(u, b, o) ==
  Tally(IF FTag(b) = 0 THEN b ELSE FUnsure) /\
  IF FTag(b) = 0 THEN o.k = "ok" /\ FHas(u, b, o.v)
  ELSE o.k = "ok" \/ (o.k = "math" /\ o.e = InvalidNumber)

Expected(s, v, env) ==
  CASE v.k = "ast" -> Eval(U(s), v.e, env)
    [] v.k = "loose" -> EvalLoose(v.e, env)
    [] v.k = "der" -> MixedAt(36, v.e, v.vs, env)
ValueOk(s, v, env, o) ==
  IF v.k = "any" THEN o.k \in {"ok", "math", "runtime"}
  ELSE IF Vars(v.e) \subseteq DOMAIN env
  THEN CASE v.k = "ast" -> Near(U(s), Expected(s, v, env), o)
         [] v.k = "loose" -> NearIfDefined(40, Expected(s, v, env), o)
         [] v.k = "der" -> NearIfDefined(36, Expected(s, v, env), o)
  ELSE IF v.k = "ast" THEN o.k \in Errs
  ELSE o.k \in Errs \cup {"ok"}
VarsOk(v, names) ==
  /\ \A i, j \in 1..Len(names) : i # j => names[i] # names[j]
  /\ LET S == {names[i] : i \in 1..Len(names)} IN
     CASE v.k = "ast" -> S = Vars(v.e)
       [] v.k \in {"loose", "der"} -> S \subseteq Vars(v.e)
       [] OTHER -> TRUE

(* The printed text, read by the grammar, has the values that were observed, and  *)
(* so has the expression that the parser makes of it.                             *)
RoundTrip(s, ev) ==
  LET o == ev.out
      p == ParseText(o.str)
      e == Printed(p.e)
      u == U(s)
      val(i) == Eval(u, e, Env(ev.pts[i]))
      sure(i) == Vars(e) \subseteq DOMAIN ev.pts[i] /\ FTag(val(i)) # 2
  IN IF p.k # "ok" THEN {"the printed text is not an expression: " \o CodesToStr(o.str)}
     ELSE (IF \E i \in 1..Len(o.vars) : o.vars[i] \notin Vars(e) THEN {"the printed text lacks a variable"} ELSE {})
       \cup (IF \A x \in Vars(e) : \E i \in 1..Len(o.vars) : o.vars[i] = x THEN {} ELSE {"the printed text has another variable"})
       \cup (IF o.rt.k # "ok" THEN {"the printed text does not parse: " \o CodesToStr(o.str)}
             ELSE (IF o.rt.vars # o.vars THEN {"reading back changes the variables"} ELSE {})
               \cup UNION {IF sure(i) /\ ~Near(u, FWiden(val(i), "0"), o.vals[i])
                             THEN {"printed as " \o CodesToStr(o.str) \o " which is " \o FShow(val(i)) \o " and not " \o Show(o.vals[i])} ELSE {}
                           : i \in 1..Len(ev.pts)}
               \cup UNION {IF sure(i) /\ ~Near(u, val(i), o.rt.vals[i])
                             THEN {"reading back gives " \o Show(o.rt.vals[i]) \o " and not " \o FShow(val(i))} ELSE {}
                           : i \in 1..Len(ev.pts)})
       \cup (IF o.strsame THEN {} ELSE {"streaming and printing differ"})

Observe(s, ev) ==
  LET v == Get(s, ev.a)
      o == ev.out
  IN IF o.k # "ok" THEN {"observation failed: " \o o.k}
     ELSE IF v.k = "any" THEN {}
     ELSE IF o.null # (v.k = "null") THEN {IF o.null THEN "the variable is empty" ELSE "the variable is not empty"}
     ELSE IF v.k = "null" THEN {}
     ELSE (IF VarsOk(v, o.vars) THEN {} ELSE {"variables " \o Show(o.vars) \o " of " \o Show(v.e)})
       \cup (IF "pts" \in DOMAIN ev
             THEN UNION {IF ValueOk(s, v, Env(ev.pts[i]), o.vals[i]) THEN {}
                         ELSE {"value " \o Show(o.vals[i]) \o " expected " \o FShow(Expected(s, v, Env(ev.pts[i]))) \o " for " \o Show(v)
                                \o " at " \o Show(ev.pts[i])}
                         : i \in 1..Len(ev.pts)}
             ELSE {})
       \cup (IF "vpa" \in DOMAIN ev /\ ~ValueOk(s, v, NoEnv, o.vpa)
             THEN {"plain evaluation gives " \o Show(o.vpa) \o " for " \o Show(v)} ELSE {})
       \cup (IF "rt" \in DOMAIN ev THEN RoundTrip(s, ev) ELSE {})

------------------------------------------------------------------------------
(* building and combining *)
Moved(s, ev, arg, cat) == IF ev[cat] = "m" THEN [s EXCEPT !.sl = (ev[arg] :> Null) @@ @] ELSE s
OkOnly(ev, s) == Res(ev.out.k = "ok", "failed: " \o Show(ev.out), s)

DoParse(s, ev) ==
  LET p == ParseText(ev.t)
      t == CodesToStr(ev.t)
      o == ev.out
  IN CASE p.k = "odd" -> IF o.k = "ok" THEN Ok(Put(s, ev.d, Unknown))
                         ELSE Res(o.k \in {"parse1", "parsem", "parse"}, "parse of " \o t, s)
       [] p.k = "ok" -> Res(o.k = "ok", "rejected: " \o t, IF o.k = "ok" THEN Put(s, ev.d, Ast(p.e)) ELSE s)
       [] OTHER -> IF o.k = "ok" THEN Res(FALSE, "accepted: " \o t, Put(s, ev.d, Unknown))
                   ELSE [why |-> (IF RejectOk(ev.t, p.s, o) THEN {} ELSE {"wrong report of " \o t \o ": " \o Show([o EXCEPT !.what = <<>>])})
                                 \cup (IF o.k \in {"parse1", "parsem", "parse"} /\ ~MessageOk(ev.t, o) THEN {"message for " \o t \o ": " \o CodesToStr(o.what)} ELSE {}),
                         s |-> s]

DoBuild(s, ev) == OkOnly(ev, Put(s, ev.d, Ast(ev.e)))
DoNum(s, ev) == OkOnly(ev, Put(s, ev.d, Ast(<<"n", ev.x>>)))
DoVar(s, ev) ==
  IF IsName(ev.t) THEN OkOnly(ev, Put(s, ev.d, Ast(<<"v", CodesToStr(ev.t)>>)))
  ELSE Res(ev.out.k \in Errs, "illegal name accepted", s)
DoLegal(s, ev) == Res(ev.out.k = "ok" /\ ev.out.b = IsName(ev.t), "legality of name " \o Show(ev.t), s)

DoUn(s, ev) ==
  LET a == Get(s, ev.a)
      v == Combine(s, <<a>>, IF HasTree(a) THEN <<ev.f, Tree(a)>> ELSE <<>>)
  IN OkOnly(ev, Put(Moved(s, ev, "a", "ca"), ev.d, v))
Bin(s, f, a, b) == Combine(s, <<a, b>>, IF HasTree(a) /\ HasTree(b) THEN <<f, Tree(a), Tree(b)>> ELSE <<>>)
DoBin(s, ev) ==
  LET v == Bin(s, ev.f, Get(s, ev.a), Get(s, ev.b))
  IN OkOnly(ev, Put(Moved(Moved(s, ev, "a", "ca"), ev, "b", "cb"), ev.d, v))
DoCas(s, ev) ==
  LET v == Bin(s, ev.f, Get(s, ev.a), Get(s, ev.b))
  IN Res(ev.out.k = "ok" /\ ev.out.self, "compound assignment failed", Put(Moved(s, ev, "b", "cb"), ev.a, v))
DoClone(s, ev) == OkOnly(ev, Put(s, ev.d, Get(s, ev.a)))
DoMove(s, ev) == LET v == Get(s, ev.a) IN OkOnly(ev, Put(Put(s, ev.a, Null), ev.d, v))
DoSwap(s, ev) == LET v == Get(s, ev.a) w == Get(s, ev.b) IN OkOnly(ev, Put(Put(s, ev.a, w), ev.b, v))
DoDrop(s, ev) == OkOnly(ev, Put(s, ev.a, Null))

Dict(s, ev) ==
  CASE ev.kind = "one" -> (ev.v :> Get(s, ev.b))
    [] ev.kind \in {"vec", "mapn"} -> [x \in {ev.vs[i] : i \in 1..Len(ev.vs)} |->
          Get(s, ev.bs[CHOOSE i \in 1..Len(ev.vs) : ev.vs[i] = x /\ \A j \in 1..(i - 1) : ev.vs[j] # x])]
    [] OTHER -> [x \in DOMAIN ev.m |-> Ast(<<"n", ev.m[x]>>)]
DoSubs(s, ev) ==
  LET a == Get(s, ev.a)
      d == Dict(s, ev)
      used == IF a.k = "ast" THEN DOMAIN d \cap Vars(a.e) ELSE DOMAIN d
      all == \A x \in used : HasTree(d[x])
      t == [x \in used |-> Tree(d[x])]
      strict == a.k = "ast" /\ \A x \in used : d[x].k = "ast"
      v == IF ~HasTree(a) \/ ~all THEN Unknown
           ELSE IF strict THEN Ast(Subst(a.e, t))
           ELSE Loose(Subst(Tree(a), t), s.n)
  IN OkOnly(ev, Put(Moved(s, ev, "a", "ca"), ev.d, v))

(* Why differentiation may or must be refused. pts are sample points. *)
NowhereDefined(e, pts) == \A i \in 1..Len(pts) :
   ~(Vars(e) \subseteq DOMAIN pts[i]) \/ FTag(EvalLoose(e, Env(pts[i]))) # 0
DoDiff(s, ev) ==
  LET a == Get(s, ev.a)
      o == ev.out
      s2 == Moved(s, ev, "a", "ca")
      v == CASE a.k \in {"ast", "loose"} -> Der(a.e, <<<<ev.v, ev.n>>>>, s.n)
             [] a.k = "der" -> IF a.vs[Len(a.vs)][1] = ev.v
                               THEN Der(a.e, SubSeq(a.vs, 1, Len(a.vs) - 1) \o <<<<ev.v, a.vs[Len(a.vs)][2] + ev.n>>>>, s.n)
                               ELSE Der(a.e, a.vs \o <<<<ev.v, ev.n>>>>, s.n)
             [] OTHER -> Unknown
  IN IF ~HasTree(a) THEN [why |-> {}, s |-> IF o.k = "ok" THEN Put(s2, ev.d, Unknown) ELSE s2]
     ELSE IF o.k = "ok"
     THEN Res(~(a.k = "ast" /\ MustRefuse(a.e)), "differentiated " \o Show(a.e), Put(s2, ev.d, v))
     ELSE Res(\/ o.k = "runtime" /\ AnyBits(a.e)
              \/ o.k = "math" /\ o.e = InvalidNumber /\ (BadConst(48, a.e) \/ BadBase(a.e) \/ NowhereDefined(a.e, ev.pts)),
              "refused to differentiate " \o Show(a.e) \o ": " \o Show([o EXCEPT !.what = <<>>]),
              IF ev.ca = "m" THEN Put(s, ev.a, Unknown) ELSE s)
(* nf marks what simplification returned: it has nothing left to simplify. Simplifying it again gives the same. *)
DoSimp(s, ev) ==
  LET a == Get(s, ev.a)
      o == ev.out
      v == CASE a.k = "ast" -> Loose(a.e, s.n)
             [] a.k \in {"loose", "der"} -> IF "nf" \in DOMAIN a /\ o.k = "ok" THEN a ELSE [x \in DOMAIN a \ {"nf"} |-> IF x = "id" THEN s.n ELSE a[x]]
             [] OTHER -> a
  IN IF o.k = "ok" THEN Ok(Put(s, ev.a, IF HasTree(a) THEN v @@ [nf |-> TRUE] ELSE v))
     ELSE Res(~HasTree(a) \/ (o.k = "math" /\ o.e = InvalidNumber /\ (BadConst(48, a.e) \/ NowhereDefined(a.e, ev.pts))),
              "refused to simplify " \o Show(a.e), Put(s, ev.a, v))
DoCalc(s, ev) ==
  LET a == Get(s, ev.a)
      o == ev.out
      r == IF o.k = "ok" THEN [k |-> "ok", v |-> o.v] ELSE o
  IN IF ValueOk(s, a, NoEnv, r) /\ (o.k = "ok" => o.self)
     THEN Ok(IF o.k = "ok" THEN Put(s, ev.a, Ast(<<"n", o.v>>)) ELSE s)
     ELSE Res(FALSE, "evaluation into place gives " \o Show(r) \o " for " \o Show(a), s)
DoVpa(s, ev) ==
  LET a == Get(s, ev.a) IN
  Res(ValueOk(s, a, NoEnv, ev.out), "evaluation gives " \o Show(ev.out) \o " for " \o Show(a), s)
DoEq(s, ev) ==
  LET a == Get(s, ev.a)
      b == Get(s, ev.b)
      o == ev.out
  IN IF o.k # "ok" THEN Res(FALSE, "comparison failed", s)
     ELSE IF a.k = "ast" /\ b.k = "ast"
     THEN Res(o.b = Same(a.e, b.e), "equality of " \o Show(a.e) \o " and " \o Show(b.e) \o " is " \o Show(o.b), s)
     ELSE IF a.k \in {"loose", "der"} /\ a = b THEN Res(o.b, "copies are not equal", s)
     ELSE Ok(s)

(* A simplified text has nothing left to simplify. up is the strength of the operator whose left *)
(* operand e is: printed sums rotate, so that 2+3+y can also be 2+(3+y) and x+0-y x+(0-y), which have *)
(* nothing to simplify.                                                                               *)
IsNumT(e) == IsNum(e) \/ (e[1] = "neg" /\ IsNum(e[2]))
Is(e, x) == IsNum(e) /\ FEqStr(e[2], x)
RECURSIVE NormalIn(_, _)
NormalIn(e, up) ==
  IF IsLeaf(e) THEN TRUE
  ELSE IF Len(e) = 2 THEN IsNumT(e) \/ (~IsNumT(e[2]) /\ NormalIn(e[2], 0))
  ELSE LET l == e[2] r == e[3] op == e[1] inner == op \in {"+", "*"} /\ up = Prec(op) IN
    /\ NormalIn(l, Prec(op)) /\ NormalIn(r, 0)
    /\ ~(IsNumT(l) /\ IsNumT(r)) \/ inner
    /\ ~(op = "+" /\ (Is(l, "0") \/ (Is(r, "0") /\ ~inner)))
    /\ ~(op = "-" /\ Is(r, "0") /\ ~inner)
    /\ ~(op = "*" /\ (Is(l, "0") \/ Is(l, "1") \/ ((Is(r, "0") \/ Is(r, "1")) /\ ~inner)))
    /\ ~(op = "/" /\ (Is(l, "0") \/ Is(r, "1")))
    /\ ~(op = "^" /\ Is(r, "1"))
Normal(e) == NormalIn(e, 0)
DoStr(s, ev) ==
  LET o == ev.out p == ParseText(o.str) IN
  IF o.k # "ok" THEN Res(FALSE, "printing failed", s)
  ELSE IF "normal" \in DOMAIN ev /\ "nf" \in DOMAIN Get(s, ev.a)
  THEN Res(p.k = "ok" /\ Normal(p.e), "not simplified: " \o CodesToStr(o.str), s)
  ELSE IF "is" \in DOMAIN ev THEN Res(o.str = ev.is, "printed as " \o CodesToStr(o.str), s)
  ELSE Ok(s)

(* numbers as text *)
NoExtraZeros(w) ==
  LET p == ExpAt(w)
      m == IF p = 0 THEN w ELSE SubSeq(w, 1, p - 1)
  IN Count(m, {46}) > 0 => m[Len(m)] \notin {46, 48}
DoToStr(s, ev) ==
  LET o == ev.out
      w == IF Len(o.str) > 0 /\ o.str[1] = 45 THEN Tail(o.str) ELSE o.str
      t == CodesToStr(o.str)
      neg == Len(o.str) > 0 /\ o.str[1] = 45
  IN IF o.k # "ok" THEN Res(FALSE, "number printing failed", s)
     ELSE IF ~FFiniteStr(ev.x) THEN Ok(s)
     ELSE [why |-> (IF IsNumber(w) THEN {} ELSE {"not a number: " \o t \o " for " \o ev.x})
                \cup (IF DecNear(t, ev.x, "1e-16", "1e-15") THEN {} ELSE {"inaccurate: " \o t \o " for " \o ev.x})
                \cup (IF NoExtraZeros(w) THEN {} ELSE {"superfluous zeros: " \o t})
                \cup (IF FSgnStr(ev.x) < 0 /\ ~FMagLt(ev.x, "1e-16") /\ ~neg THEN {"sign lost: " \o t} ELSE {})
                \cup (IF FSgnStr(ev.x) >= 0 /\ neg THEN {"sign invented: " \o t} ELSE {})
                \cup (IF FIsIntStr(ev.x) /\ FMagLt(ev.x, "9007199254740993") /\ t # FIntStr(ev.x) THEN {"integer printed as " \o t} ELSE {}),
           s |-> s]

------------------------------------------------------------------------------
(* settings *)
CfgOk(cfg, o) ==
  /\ o.throw = cfg.throw /\ FEqStr(o.eps, cfg.eps) /\ o.log = cfg.log /\ o.max = cfg.max
  /\ o.method = cfg.method /\ FEqStr(o.init, cfg.init) /\ o.indet = cfg.indet
SetCfg(cfg, set) == [f \in DOMAIN cfg |-> IF f \in DOMAIN set THEN set[f] ELSE cfg[f]]
DoCfg(s, ev) ==
  LET c == CASE ev.op = "cfg" -> SetCfg(s.cfg, ev.set) [] ev.op = "cfgreset" -> Defaults [] OTHER -> s.cfg
  IN Res(ev.out.k = "ok" /\ CfgOk(c, ev.out), "settings are " \o Show(ev.out) \o " expected " \o Show(c), [s EXCEPT !.cfg = c])
DoReset(s, ev) ==
  LET c == IF "set" \in DOMAIN ev THEN SetCfg(Defaults, ev.set) ELSE Defaults
  IN Res(ev.out.k = "ok" /\ CfgOk(c, ev.out), "settings after reset are " \o Show(ev.out), [InitSys EXCEPT !.cfg = c])

(* no operation changes a setting, and nothing is logged at or below the default level *)
Side(s, ev) ==
  (IF "cfg" \in DOMAIN ev.out /\ ~CfgOk(s.cfg, ev.out.cfg) THEN {"a setting changed: " \o Show(ev.out.cfg)} ELSE {})
  \cup (IF "cout" \in DOMAIN ev.out /\ ev.out.cout > 0 /\ s.cfg.log <= 3 /\ ev.op # "findalpha" THEN {"output was written"} ELSE {})
  \cup (IF "cout" \in DOMAIN ev.out /\ ev.out.cout = 0 /\ s.cfg.log >= 4 /\ ev.op = "solve" THEN {"nothing was logged at a level that logs"} ELSE {})

ExprOps == {"parse", "build", "obs", "num", "var", "legal", "un", "bin", "cas", "clone", "move", "swap", "drop",
            "subs", "diff", "simp", "calc", "vpa", "eq", "str", "tostr"}
(* the empty arguments of a command: the driver does not hand them to the library *)
Args(ev) ==
  (IF ev.op \in {"un", "bin", "cas", "clone", "subs", "diff", "simp", "calc", "vpa", "eq", "str"} THEN {ev.a} ELSE {})
  \cup (IF ev.op \in {"bin", "cas", "eq"} \/ (ev.op = "subs" /\ ev.kind = "one") THEN {ev.b} ELSE {})
  \cup (IF ev.op = "subs" /\ ev.kind \in {"vec", "mapn"} THEN {ev.bs[i] : i \in 1..Len(ev.bs)} ELSE {})
DoExpr(s, ev) ==
  IF \E a \in Args(ev) : Get(s, a) = Null THEN Res(ev.out.k = "nullarg", "an expression that was moved from or never set is not empty", s)
  ELSE IF ev.out.k = "nullarg" /\ \A a \in Args(ev) : Get(s, a).k # "any" THEN Res(FALSE, "an operand has become empty", s)
  ELSE IF ev.out.k = "nullarg" THEN Ok(s)
  ELSE
  CASE ev.op = "parse" -> DoParse(s, ev) [] ev.op = "build" -> DoBuild(s, ev)
    [] ev.op = "obs" -> [why |-> Observe(s, ev), s |-> s]
    [] ev.op = "num" -> DoNum(s, ev) [] ev.op = "var" -> DoVar(s, ev) [] ev.op = "legal" -> DoLegal(s, ev)
    [] ev.op = "un" -> DoUn(s, ev) [] ev.op = "bin" -> DoBin(s, ev) [] ev.op = "cas" -> DoCas(s, ev)
    [] ev.op = "clone" -> DoClone(s, ev) [] ev.op = "move" -> DoMove(s, ev) [] ev.op = "swap" -> DoSwap(s, ev)
    [] ev.op = "drop" -> DoDrop(s, ev) [] ev.op = "subs" -> DoSubs(s, ev) [] ev.op = "diff" -> DoDiff(s, ev)
    [] ev.op = "simp" -> DoSimp(s, ev) [] ev.op = "calc" -> DoCalc(s, ev) [] ev.op = "vpa" -> DoVpa(s, ev)
    [] ev.op = "eq" -> DoEq(s, ev) [] ev.op = "str" -> DoStr(s, ev) [] ev.op = "tostr" -> DoToStr(s, ev)
=============================================================================
