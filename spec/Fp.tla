-------------------------------- MODULE Fp --------------------------------
(* IEEE double arithmetic on values written as 16 hexadecimal digits, and     *)
(* arithmetic on integers of any size written in decimal.  TLC's integers     *)
(* have 32 bits and it has no reals; the operators below are evaluated by     *)
(* the Java class Fp (module override), the definitions here are stand-ins.   *)
EXTENDS Naturals, Sequences

\* ---- doubles -------------------------------------------------------------
FAdd(x, y) == x
FSub(x, y) == x
FMul(x, y) == x
FDiv(x, y) == x
FNeg(x) == x
FAbs(x) == x
FSqrt(x) == x
FMax(x, y) == x
FLt(x, y) == TRUE
FLe(x, y) == TRUE
FEq(x, y) == TRUE                 \* numeric equality (0 = -0, NaN # NaN)
FFinite(x) == TRUE
FInt(i) == "0"                    \* integer to double
FDec(s) == "0"                    \* decimal string to double
FRat(i, j) == "0"                 \* i/j
FStr(x) == ""                     \* for messages
FPi == "0"
FSum(s) == "0"                    \* sum of a sequence, in order
FAbsSum(s) == "0"
FDot(s, t) == "0"                 \* sum of products, in order
FMaxAbs(s) == "0"
FSin(x) == "0"
FCos(x) == "0"
\* |x - y| <= rel * max(|x|,|y|) + abs
FClose(x, y, rel, abs) == TRUE
\* the same for sequences, relative to the largest magnitude in both
FCloseSeq(s, t, rel, abs) == TRUE
FEqSeq(s, t) == TRUE
\* ---- vectors in space ------------------------------------------------------
VAdd(u, v) == u
VSub(u, v) == u
VScale(x, u) == u
VCross(u, v) == u
VNorm(u) == "0"
\* ---- dense linear algebra --------------------------------------------------
\* M x for a sequence of rows
MatVec(M, x) == x
\* ---- integers as decimal strings --------------------------------------------
BAdd(x, y) == x
BSub(x, y) == x
BMul(x, y) == x
BLt(x, y) == TRUE
BInt(i) == "0"
BHex(s) == "0"                    \* hexadecimal string to decimal string
HInt(s) == 0                      \* hexadecimal string to integer, -1 if it is too large
\* ---- evaluation (the identity) ------------------------------------------------
Strict(x) == x
\* ---- misc ---------------------------------------------------------------------
StrLt(x, y) == TRUE               \* lexicographic order of strings
LowerS(x) == x
Chars(s) == ""                    \* the string of a sequence of character codes
StrLen(x) == 0
StrAt(x, i) == ""                 \* i-th character as a string
StrSub(x, i, j) == ""
===========================================================================
