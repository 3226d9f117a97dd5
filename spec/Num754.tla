------------------------------- MODULE Num754 -------------------------------
(* Floating-point values with error bounds. TLC has no reals, so the numeric   *)
(* base operations are module overrides (java/Num754.java, where a value and   *)
(* the modes u are described); everything built on them is TLA+. The           *)
(* definitions below only fix names and arities; they are never evaluated.     *)
LOCAL INSTANCE Integers
LOCAL NA == CHOOSE x \in {} : TRUE

FLit(u, s) == NA        \* the double written in string s, exactly
FLitP(u, s) == NA       \* the same, but only known to the printed precision
FInt(n) == NA
FUnsure == NA
FWiden(a, s) == NA
FSpread(a, b, k) == NA   \* a, less certain by 2^-k of b

FNeg(u, a) == NA
FAbs(u, a) == NA
FAdd(u, a, b) == NA
FSub(u, a, b) == NA
FMul(u, a, b) == NA
FDiv(u, a, b) == NA
FPow(u, a, b) == NA
FSin(u, a) == NA
FCos(u, a) == NA
FTan(u, a) == NA
FAsin(u, a) == NA
FAcos(u, a) == NA
FAtan(u, a) == NA
FSqrt(u, a) == NA
FLog(u, a) == NA
FLog2(u, a) == NA
FLog10(u, a) == NA
FExp(u, a) == NA
FMod(u, a, b) == NA     \* integer operators on operands truncated to int
FAnd(u, a, b) == NA
FOr(u, a, b) == NA

FTag(a) == NA           \* 0 value, 1 certainly invalid, 2 unsure
FFinite(a) == NA
FIsZero(a) == NA        \* exactly zero
FNonZero(a) == NA       \* certainly not zero
FLt(a, b) == NA         \* 1 certainly, 0 certainly not, 2 undecided
FHas(u, a, s) == NA     \* the double written in s is a possible value of a
FMeet(u, a, b) == NA    \* a and b can be the same value
FSharp(a) == NA
FShow(a) == NA
FMid(a) == NA
FWidth(a) == NA         \* the error bound, as a value
FPow2Str(k) == NA       \* 2^-k, written out

FSame(s, t) == NA       \* comparisons of doubles given as strings
FEqStr(s, t) == NA
FFiniteStr(s) == NA
FSgnStr(s) == NA
FMagLt(s, t) == NA
FIsIntStr(s) == NA
FIntStr(s) == NA
CodesToStr(c) == NA
StrCodes(s) == NA
DecNear(text, s, abs, rel) == NA
=============================================================================
