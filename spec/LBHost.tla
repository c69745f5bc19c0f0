------------------------------- MODULE LBHost -------------------------------
(***************************************************************************)
(* The interface between the specification and the machine it is evaluated *)
(* on.  Everything here is about double precision numbers, character       *)
(* codes and files on the verifier's side; no rule of Legacy Basic is      *)
(* defined here.  The operators are evaluated by host/LBHost.java (TLC     *)
(* module override); the definitions below only fix their arity.           *)
(*                                                                         *)
(* Text is a sequence of character codes everywhere in the specification.  *)
(* A number is an IEEE double, represented by a canonical string such as   *)
(* "2.5", "-0.0", "inf", "nan", so that equal values are equal strings.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Txt(s) == <<>>             \* a string constant as a sequence of character codes
Str(t) == ""               \* the reverse (used in messages to the user only)

(* arithmetic of IEEE doubles *)
NAdd(a, b) == a
NSub(a, b) == a
NMul(a, b) == a
NDiv(a, b) == a
NPow(a, b) == a
NNeg(a) == a
NAbs(a) == a
NFloor(a) == a
NSin(a) == a
NCos(a) == a
NTan(a) == a
NAtn(a) == a
NExp(a) == a
NLog(a) == a
NSqrt(a) == a
NLT(a, b) == FALSE         \* a < b   (false if either is not a number)
NEQ(a, b) == FALSE         \* a = b   (false if either is not a number)
NNum(i) == "0.0"           \* double of an integer
NInt(a) == 0               \* integer of an integral double, saturating at +-2000000000
NIsInt(a) == FALSE         \* floor(a) = a (true of infinities, false of NaN)
NInInt32(a) == FALSE       \* INT_MIN <= a <= INT_MAX
NGtUInt(a) == FALSE        \* a > UINT_MAX
NAndInt(a, b) == a         \* bitwise operations on 32-bit integers given as doubles
NOrInt(a, b) == a
NNotInt(a) == a

(* conversion between text and number *)
NFmt(a) == <<>>            \* C's %g
NParse(t) == <<"0.0", 0>>  \* C's strtod: value, and how many characters it used

(* F(x).  (Without this indirection TLC, before it starts, follows all the ways
   operators call each other, of which there are exponentially many.) *)
Via(F(_), x) == F(x)

(* verifier's side *)
LoadSessions(k) == <<>>    \* the sessions to explore (sequence of records)
Tally(k) == TRUE           \* count an occurrence (coverage)
Emit(r) == TRUE            \* append a result record to the output file
=============================================================================
