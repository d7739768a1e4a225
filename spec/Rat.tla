------------------------------- MODULE Rat -------------------------------
(* Exact rational arithmetic.  TLC's integers are 32-bit, while every IEEE
   float recorded from the implementation is an exact dyadic rational, so a
   number is carried as its canonical text "n" or "n/d" and the operators
   below are evaluated by the Java module override java/Rat.java (BigInteger).
   The definitions here are only reached if the override is not loaded, in
   which case RLoaded is FALSE and every specification that uses numbers stops
   at its ASSUME.  "nan", "inf" and "-inf" are absorbing for arithmetic and
   make every comparison FALSE (inf compares, nan does not).               *)
EXTENDS Integers, Sequences
RLoaded == FALSE
RAdd(a, b) == CHOOSE x \in {} : TRUE
RSub(a, b) == CHOOSE x \in {} : TRUE
RMul(a, b) == CHOOSE x \in {} : TRUE
RDiv(a, b) == CHOOSE x \in {} : TRUE     \* "nan" when b is zero
RNeg(a) == CHOOSE x \in {} : TRUE
RAbs(a) == CHOOSE x \in {} : TRUE
RLt(a, b) == CHOOSE x \in {} : TRUE
RLe(a, b) == CHOOSE x \in {} : TRUE
REq(a, b) == CHOOSE x \in {} : TRUE
RFin(a) == CHOOSE x \in {} : TRUE        \* is a finite number
RMax(a, b) == CHOOSE x \in {} : TRUE
RMin(a, b) == CHOOSE x \in {} : TRUE
RPow(a, k) == CHOOSE x \in {} : TRUE     \* k a TLC integer, may be negative
RRound(a, bits) == CHOOSE x \in {} : TRUE \* nearest number with that many significant bits
RSqrt(a, bits) == CHOOSE x \in {} : TRUE  \* square root from below, that many bits
RRoot(a, k, bits) == CHOOSE x \in {} : TRUE \* k-th root from below
RExp(a, bits) == CHOOSE x \in {} : TRUE  \* to that many significant bits
RCos(a, bits) == CHOOSE x \in {} : TRUE  \* to within 2^-bits
RSin(a, bits) == CHOOSE x \in {} : TRUE
RPi(bits) == CHOOSE x \in {} : TRUE
RFloor(a) == CHOOSE x \in {} : TRUE      \* a TLC integer
RTwo(k) == CHOOSE x \in {} : TRUE        \* 2^k
RShow(a) == CHOOSE x \in {} : TRUE       \* decimal text, for messages only
VAdd(a, b) == CHOOSE x \in {} : TRUE     \* entrywise, for sequences of equal length
VSub(a, b) == CHOOSE x \in {} : TRUE
VMul(a, b) == CHOOSE x \in {} : TRUE
VScale(c, a) == CHOOSE x \in {} : TRUE
VRound(a, bits) == CHOOSE x \in {} : TRUE
VSum(a) == CHOOSE x \in {} : TRUE
VDot(a, b) == CHOOSE x \in {} : TRUE
VMaxAbs(a) == CHOOSE x \in {} : TRUE     \* "nan" if an entry is not finite
PAdd(a, b) == CHOOSE x \in {} : TRUE     \* polynomials, lowest power first
PMul(a, b) == CHOOSE x \in {} : TRUE
PMulT(a, b, n) == CHOOSE x \in {} : TRUE \* first n coefficients of the product
PInt(a) == CHOOSE x \in {} : TRUE        \* antiderivative, zero at 0
PDer(a) == CHOOSE x \in {} : TRUE
PEval(a, t) == CHOOSE x \in {} : TRUE
==========================================================================
