------------------------------- MODULE BKNum -------------------------------
(* Numbers of the BlipKit specification: 32 bit arithmetic, times as pairs  *)
(* <<samples, fraction>> with a 20 bit fraction, small sequence helpers.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

U20     == 1048576                 \* one sample
MaxVol  == 32767
FMax    == 32767
IntMax  == 2147483647
IntMin  == -2147483647 - 1

Min2(a, b)     == IF a < b THEN a ELSE b
Max2(a, b)     == IF a > b THEN a ELSE b
Abs(a)         == IF a < 0 THEN -a ELSE a
Clamp(v, l, h) == IF v < l THEN l ELSE IF v > h THEN h ELSE v
Bool(b)        == IF b THEN 1 ELSE 0

(* C division truncates towards zero, shifts right round down *)
CDiv(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q

(* sum modulo 2^32 *)
WAdd(a, b) == IF a >= 0 THEN (IF b > IntMax - a THEN (a - IntMax) + (b - IntMax) - 2 ELSE a + b)
              ELSE (IF b < IntMin - a THEN (a - IntMin) + (b - IntMin) ELSE a + b)

Pow2(n) == 2^n
Shr(a, n) == a \div 2^n

------------------------------------------------------------------------------
(* times *)
T0          == <<0, 0>>
TNorm(s, f) == <<s + (f \div U20), f % U20>>
TAdd(a, b)  == TNorm(a[1] + b[1], a[2] + b[2])
TSub(a, b)  == TNorm(a[1] - b[1], a[2] - b[2])
TLt(a, b)   == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
TLe(a, b)   == ~TLt(b, a)
TMin(a, b)  == IF TLt(a, b) THEN a ELSE b
TMax(a, b)  == IF TLt(a, b) THEN b ELSE a
TOf(n)      == <<n \div U20, n % U20>>
TInt(t)     == t[1] * U20 + t[2]          \* only for |t| < 2047 samples

(* the longest step of the context's clock, BK_INT_MAX / 3 *)
AdvanceCap  == <<682, 699050>>

------------------------------------------------------------------------------
(* sequences *)
Rep(n, v)        == TLCEval([i \in 1..n |-> v])
IndexOf(s, e)    == LET I == {i \in 1..Len(s) : s[i] = e}
                    IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Has(s, e)        == \E i \in 1..Len(s) : s[i] = e
Without(s, e)    == SelectSeq(s, LAMBDA v : v # e)
Before(s, e, b)  == LET i == IndexOf(s, b) IN SubSeq(s, 1, i - 1) \o <<e>> \o SubSeq(s, i, Len(s))
Successor(s, e)  == LET i == IndexOf(s, e) IN IF i = 0 \/ i = Len(s) THEN "-" ELSE s[i + 1]
First(s)         == IF s = <<>> THEN "-" ELSE s[1]
Drop(f, id)      == TLCEval([y \in DOMAIN f \ {id} |-> f[y]])
Put(f, id, v)    == TLCEval([y \in DOMAIN f \cup {id} |-> IF y = id THEN v ELSE f[y]])

(* repeat `body` while `test` holds; folds keep the evaluation stack of TLC flat *)
Tally == [i \in 1..40 |-> i]
While(test(_), body(_), X0) ==
  LET w1(X) == FoldLeft(LAMBDA Y, i: IF test(Y) THEN body(Y) ELSE Y, X, Tally)
      w2(X) == FoldLeft(LAMBDA Y, i: IF test(Y) THEN w1(Y) ELSE Y, X, Tally)
      R     == FoldLeft(LAMBDA Y, i: IF test(Y) THEN w2(Y) ELSE Y, X0, Tally)
  IN IF test(R) THEN Assert(FALSE, "loop does not end") ELSE R

(* result codes as the harness reports them *)
ALLOC == -101   INVATTR == -102  INVVAL == -103  INVSTATE == -104
NUMCH == -105   NUMFRM  == -106  NUMBITS == -107 INVRET   == -108
FILEERR == -109  NOREAD == -110  NOWRITE == -111  NOSEEK == -112
=============================================================================
