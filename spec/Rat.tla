-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic on pairs <<num, den>> in lowest terms with     *)
(* den > 0.  TLC integers have 32 bits, so every operation is total: when   *)
(* the reduced result leaves the box of RBound the result is Bad, and Bad   *)
(* is absorbing.  Actions that would produce Bad are simply not enabled, so *)
(* a behaviour never contains a number that is not exact.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

RBound == 30000
Bad == <<0, 0>>

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(n) == IF n < 0 THEN -n ELSE n

\* n/d in lowest terms, for |n|, |d| < 2^31 and d # 0
RMk(n, d) ==
  IF n = 0 THEN <<0, 1>>
  ELSE LET g == Gcd(Abs(n), Abs(d))
           s == IF d < 0 THEN -1 ELSE 1
           nn == s * (n \div g)
           dd == s * (d \div g)
       IN  IF Abs(nn) > RBound \/ dd > RBound THEN Bad ELSE <<nn, dd>>

\* exact integer division of a negative by a positive number (TLC floors)
RInt(n) == <<n, 1>>
RZero == <<0, 1>>
ROne == <<1, 1>>
IsBad(r) == r[2] = 0
RIsZero(r) == r[2] # 0 /\ r[1] = 0

RAdd(a, b) == IF IsBad(a) \/ IsBad(b) THEN Bad
              ELSE IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
              ELSE IF a[2] = b[2] THEN RMk(a[1] + b[1], a[2])
              ELSE RMk(a[1] * b[2] + b[1] * a[2], a[2] * b[2])
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF IsBad(a) \/ IsBad(b) THEN Bad
              ELSE IF a[1] = 0 \/ b[1] = 0 THEN RZero
              ELSE RMk(a[1] * b[1], a[2] * b[2])
RInv(a) == IF IsBad(a) \/ a[1] = 0 THEN Bad
           ELSE IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
RDiv(a, b) == RMul(a, RInv(b))
RLess(a, b) == a[1] * b[2] < b[1] * a[2]
RLeq(a, b) == a[1] * b[2] <= b[1] * a[2]
RAbs(a) == <<Abs(a[1]), a[2]>>
RSgn(a) == IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0

RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN RZero ELSE RAdd(Head(s), RSumSeq(Tail(s)))

RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN ROne ELSE RMul(a, RPow(a, k - 1))
=============================================================================
