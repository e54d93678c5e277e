-------------------------------- MODULE BKSeq --------------------------------
(* Instrument sequences and envelopes. A sequence is a record                 *)
(*   [env, v (values), st (steps, envelopes only), so, sl (sustain), fs]      *)
(* the play state of one track a record [off, val, ph, steps, sv, ev, delta]. *)
(* Phases: 0 muted, 1 attack and sustain, 2 release.                          *)
EXTENDS BKNum

Ended == IntMax
SeqState0 == [off |-> 0, val |-> 0, ph |-> 0, steps |-> 0, sv |-> 0, ev |-> 0, delta |-> 0]

(* bits of fraction an envelope keeps, leaving room for any duty cycle as start value *)
RECURSIVE BitsAbove(_, _)
BitsAbove(v, n) == IF n >= 30 \/ Pow2(n) > v THEN n ELSE BitsAbove(v, n + 1)
FracShift(v) == LET m == FoldLeft(LAMBDA a, x: Max2(a, Abs(x)), 15, v) IN 30 - BitsAbove(m, 0)

(* sustain arguments: negative ones count as very large *)
SusClamp(v, max) == IF v < 0 THEN max ELSE Min2(v, max)
SeqMake(v, so0, sl0) ==
  LET so == SusClamp(so0, Len(v)) IN
  [env |-> FALSE, v |-> v, st |-> <<>>, so |-> so, sl |-> SusClamp(sl0, Len(v) - so), fs |-> 0]
EnvMake(st, v, so0, sl0) ==
  LET so == SusClamp(so0, Len(v)) IN
  [env |-> TRUE, v |-> v, st |-> st, so |-> so, sl |-> SusClamp(sl0, Len(v) - so), fs |-> FracShift(v)]
(* an envelope that would never advance in its sustain part is refused *)
EnvOk(q) == q.so = Len(q.v) \/ \E i \in q.so + 1..q.so + q.sl : q.st[i] # 0

Wraps(q, s) == s.ph = 1 /\ s.off >= q.so + q.sl
Wrap(q, s)  == IF Wraps(q, s) THEN [s EXCEPT !.off = q.so] ELSE s

(* the result tells a step ("step"), one that starts the sustain part again ("rep") or the end ("fin") *)
RECURSIVE EnvAdvance1(_, _, _)
EnvAdvance(q, s) == EnvAdvance1(q, s, "step")
EnvAdvance1(q, s, res) ==
  IF s.steps > 1
  THEN [s |-> [s EXCEPT !.steps = @ - 1, !.sv = @ + s.delta, !.val = Shr(s.sv + s.delta, q.fs)], res |-> res]
  ELSE LET s1 == IF s.steps = 1 THEN [s EXCEPT !.steps = 0, !.sv = s.ev, !.val = Shr(s.ev, q.fs), !.off = @ + 1] ELSE s
           s2 == Wrap(q, s1)
           i  == s2.off + 1
           r2 == IF Wraps(q, s1) THEN "rep" ELSE res
           tv == q.v[i] * Pow2(q.fs)
       IN IF s2.off >= Len(q.v) THEN [s |-> [s2 EXCEPT !.off = Ended], res |-> "fin"]
          ELSE IF q.st[i] > 0
          THEN [s |-> [s2 EXCEPT !.steps = q.st[i], !.ev = tv, !.delta = CDiv(tv - s2.sv, q.st[i]), !.val = Shr(s2.sv, q.fs)],
                res |-> r2]
          ELSE EnvAdvance1(q, [s2 EXCEPT !.sv = tv, !.off = @ + 1, !.val = Shr(tv, q.fs)], r2)

(* level 1 is the divided instrument tick that advances simple sequences *)
SeqStep(q, s, level) ==
  IF s.off = Ended THEN [s |-> s, res |-> "none"]
  ELSE IF q.env THEN EnvAdvance(q, s)
  ELSE IF level < 1 THEN [s |-> s, res |-> "none"]
  ELSE LET s1 == Wrap(q, s) IN
       IF s1.off < Len(q.v) THEN [s |-> [s1 EXCEPT !.val = q.v[s1.off + 1], !.off = @ + 1], res |-> IF Wraps(q, s) THEN "rep" ELSE "step"]
       ELSE [s |-> [s1 EXCEPT !.off = Ended], res |-> "fin"]

SeqPhase(q, s, ph) ==
  LET start == CASE ph = 0 -> Len(q.v) [] ph = 1 -> 0 [] ph = 2 -> q.so + q.sl
      s1 == [s EXCEPT !.off = start, !.ph = ph]
  IN IF ~q.env
     THEN IF start < Len(q.v) THEN [s |-> [s1 EXCEPT !.val = q.v[start + 1]], res |-> "none"]
          ELSE [s |-> [s1 EXCEPT !.off = Ended], res |-> "fin"]
     ELSE IF ph = 0 THEN [s |-> [s1 EXCEPT !.steps = 0, !.delta = 0, !.sv = s.val * Pow2(q.fs), !.ev = 0], res |-> "fin"]
     ELSE EnvAdvance(q, [s1 EXCEPT !.steps = 0])

SeqSetValue(q, s, v) ==
  IF ~q.env THEN [s EXCEPT !.val = v]
  ELSE LET sv == v * Pow2(q.fs) IN
       [s EXCEPT !.val = v, !.sv = sv, !.delta = IF s.steps > 0 THEN CDiv(s.ev - sv, s.steps) ELSE @]
=============================================================================
