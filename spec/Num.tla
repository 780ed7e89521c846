-------------------------------- MODULE Num --------------------------------
(* Arithmetic used by the specifications.  TLC evaluates these operators     *)
(* through the Java module override java/Num.java; only arithmetic is        *)
(* overridden, never a property.                                             *)
(*                                                                           *)
(* F*  IEEE-754 double operations, a double being the 16 hex digits of its   *)
(*     bit pattern.                                                          *)
(* R*  exact rational operations, a rational being "p/q" in hexadecimal,     *)
(*     q > 0, lowest terms (so that = on rationals is numerical equality).   *)
(* The right-hand sides below only fix arities; without the override TLC     *)
(* stops with an error rather than computing something else.                 *)
EXTENDS Integers, Sequences, TLC
NoOverride == Assert(FALSE, "Num.class is not on the class path")

FAdd(a, b) == NoOverride
FSub(a, b) == NoOverride
FMul(a, b) == NoOverride
FDiv(a, b) == NoOverride
FNeg(a)    == NoOverride
FAbs(a)    == NoOverride
FSqrt(a)   == NoOverride
FPow(a, b) == NoOverride
FSin(a)    == NoOverride
FCos(a)    == NoOverride
FExp(a)    == NoOverride
FMax(a, b) == NoOverride
FMin(a, b) == NoOverride
FLt(a, b)  == NoOverride
FLe(a, b)  == NoOverride
FEq(a, b)  == NoOverride      (* numerical equality; NaN equals NaN *)
FIsNaN(a)  == NoOverride
FIsFinite(a) == NoOverride
FOfInt(n)  == NoOverride
FOfStr(s)  == NoOverride      (* decimal literal *)
FShow(a)   == NoOverride
F32Round(a) == NoOverride     (* nearest single-precision value *)

RofF(a)    == NoOverride
RofInt(n)  == NoOverride
RPow2(k)   == NoOverride
RAdd(a, b) == NoOverride
RSub(a, b) == NoOverride
RMul(a, b) == NoOverride
RDiv(a, b) == NoOverride
RNeg(a)    == NoOverride
RAbs(a)    == NoOverride
RLt(a, b)  == NoOverride
RLe(a, b)  == NoOverride
REq(a, b)  == NoOverride
FofR(a)    == NoOverride
RDot(u, v) == NoOverride      (* sum of componentwise products *)
Force(v)   == v               (* overridden only to evaluate nested functions eagerly *)

RZero == RofInt(0)
ROne  == RofInt(1)
=============================================================================
