-------------------------------- MODULE Num --------------------------------
(* Real arithmetic.  TLC integers are 32 bits wide and it has no reals, so   *)
(* reals are values of a Java class (40 significant digits; class            *)
(* RealValue) and the operators below are given by java/NumOverrides.java.   *)
(* Every operator accepts an integer, a numeral such as "2.5e-3" or a real.  *)
(* An operation without a real result yields NaN, and no comparison with     *)
(* NaN holds.                                                                *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences

R(x) == CHOOSE r : TRUE             \* the real denoted by x
RStr(x) == CHOOSE s : TRUE          \* a numeral denoting x (30 digits)
RIsNum(x) == CHOOSE b : TRUE        \* is x a finite number
RAdd(x, y) == CHOOSE r : TRUE
RSub(x, y) == CHOOSE r : TRUE
RMul(x, y) == CHOOSE r : TRUE
RDiv(x, y) == CHOOSE r : TRUE
RNeg(x) == CHOOSE r : TRUE
RAbs(x) == CHOOSE r : TRUE
RSqrt(x) == CHOOSE r : TRUE
RExp(x) == CHOOSE r : TRUE
RLog(x) == CHOOSE r : TRUE
RLt(x, y) == CHOOSE b : TRUE
RLe(x, y) == CHOOSE b : TRUE
REq(x, y) == CHOOSE b : TRUE
RSgn(x) == CHOOSE i : TRUE          \* -1, 0 or 1 (an integer)
RMax(x, y) == CHOOSE r : TRUE
RMin(x, y) == CHOOSE r : TRUE
RClose(x, y, tol, scale) == CHOOSE b : TRUE   \* |x-y| <= tol * max(scale, |x|, |y|)
RSum(s) == CHOOSE r : TRUE          \* sum of a sequence
RDot(s, t) == CHOOSE r : TRUE       \* inner product of two sequences
RSolve(A, b) == CHOOSE x : TRUE     \* the x with A x = b (A square, a sequence of rows); <<>> if A is singular
IsSeq(x) == CHOOSE b : TRUE         \* is x a sequence (and not a string or a number)
IsNumeral(x) == CHOOSE b : TRUE     \* is x a number or a string which denotes one
SameValue(x, y) == CHOOSE b : TRUE  \* structural equality which never fails, whatever x and y are
=============================================================================
