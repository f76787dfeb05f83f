-------------------------------- MODULE F64 --------------------------------
(* IEEE-754 binary64 numbers for TLC.  A number is the pair <<hi, lo>> of   *)
(* the 32-bit halves of its bit pattern, so that TLC's 32-bit integers can  *)
(* hold it.  The operators are declared here and evaluated by               *)
(* java/F64Overrides.java (a TLC module override); they are the arithmetic  *)
(* of the language and know nothing about snow.                             *)
EXTENDS Integers

LOCAL Evaluated == CHOOSE x \in {} : TRUE

F(str)         == Evaluated   \* the number written str, e.g. F("273.16")
FI(i)          == Evaluated   \* the integer i as a number
a \oplus b     == Evaluated
a \ominus b    == Evaluated
a \otimes b    == Evaluated
a \oslash b    == Evaluated
a \prec b      == Evaluated   \* a < b
a \preceq b    == Evaluated
a \succ b      == Evaluated
a \succeq b    == Evaluated
FEq(a, b)      == Evaluated   \* equal as numbers (0 = -0)
FNeg(a)        == Evaluated
FAbs(a)        == Evaluated
FMax(a, b)     == Evaluated
FMin(a, b)     == Evaluated
FSqrt(a)       == Evaluated
FExp(a)        == Evaluated
FLn(a)         == Evaluated
FPow(a, b)     == Evaluated
FCos(a)        == Evaluated
FAtan(a)       == Evaluated
FFinite(a)     == Evaluated
\* |a - b| <= abs + rel * max(|a|, |b|)
FNear(a, b, rel, abs) == Evaluated
FShow(a)       == Evaluated   \* decimal rendering, for messages
LoadValue(f)   == Evaluated   \* the value recorded in file f
=============================================================================
