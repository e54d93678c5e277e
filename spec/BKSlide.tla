------------------------------- MODULE BKSlide -------------------------------
(* Slides (volume, panning, pitch) and intervals (tremolo, vibrato)           *)
EXTENDS BKNum

MaxSteps == 8388608

(* fraction bits that leave room for values up to `max` *)
RECURSIVE BitsFor(_, _)
BitsFor(max, n) == IF n >= 30 \/ Pow2(n) >= max THEN n ELSE BitsFor(max, n + 1)
FracBits(max)         == IF max = 0 THEN 0 ELSE 30 - BitsFor(max, 0)
IntervalFracBits(max) == Max2(0, FracBits(max) - 1)

(* vs: fraction bits of the values of this slide *)
Slide0(vs) == [end |-> 0, steps |-> 0, val |-> 0, sd |-> 0, rb |-> 0, vs |-> vs, step |-> 0]

SlideSet(s, v, n0) ==
  LET n     == Clamp(n0, 0, MaxSteps)
      end   == v * Pow2(s.vs)
      delta == end - s.val
      sd    == CDiv(delta, n)
      whole == Shr(delta, s.vs)
      bias  == CDiv(CDiv(n * 256, whole), 2) * CDiv(sd, 256)
  IN IF n > 0
     THEN [s EXCEPT !.end = end, !.steps = n, !.step = n, !.sd = sd, !.rb = IF whole # 0 THEN bias ELSE 0]
     ELSE [s EXCEPT !.val = end, !.end = end, !.steps = 0, !.sd = 0, !.step = 0]

SlideSetValue(s, v)  == SlideSet(s, v, s.steps)
SlideSetSteps(s, n)  == SlideSet(s, Shr(s.end, s.vs), n)
SlideHalt(s, toEnd)  == [s EXCEPT !.step = 0, !.val = IF toEnd THEN s.end ELSE @]
SlideStep(s) == IF s.step <= 0 THEN s
                ELSE [s EXCEPT !.step = @ - 1, !.val = IF s.step = 1 THEN s.end ELSE @ + s.sd]
SlideValue(s) == Shr(s.val + s.rb, s.vs)

------------------------------------------------------------------------------
(* phases: 0 up from zero, 1 down from top, 2 down from zero, 3 up from bottom *)
Interval0(vs) == [delta |-> 0, steps |-> 0, val |-> 0, sd |-> 0, rb |-> 0, vs |-> vs, phase |-> 0, step |-> 0]

IntervalSet(s, d, n0) ==
  LET n     == Clamp(n0, 0, MaxSteps)
      delta == d * Pow2(s.vs)
      step  == IF s.steps = 0 THEN 0 ELSE Shr(((s.step * 256 + 128) \div s.steps) * n, 8)
      sd    == CDiv(delta, n)
      bias  == CDiv(CDiv(n * 256, d), 2) * CDiv(sd, 256)
      val   == CASE s.phase = 0 -> sd * step
                 [] s.phase = 1 -> sd * (n - step)
                 [] s.phase = 2 -> -sd * step
                 [] s.phase = 3 -> -sd * (n - step)
  IN IF n = 0 THEN [s EXCEPT !.delta = 0, !.steps = 0, !.val = 0, !.sd = 0, !.phase = 0, !.step = 0]
     ELSE IF n = s.steps /\ delta = s.delta THEN s
     ELSE [s EXCEPT !.delta = delta, !.steps = n, !.val = val, !.step = step,
                    !.sd = IF s.phase \in {1, 2} THEN -sd ELSE sd,
                    !.rb = IF d # 0 THEN bias ELSE 0]

IntervalSetDelta(s, d) == IntervalSet(s, d, s.steps)
IntervalSetSteps(s, n) == IntervalSet(s, Shr(s.delta, s.vs), n)

IntervalStep(s) ==
  IF s.steps = 0 THEN s
  ELSE IF s.step < s.steps - 1 THEN [s EXCEPT !.val = @ + s.sd, !.step = @ + 1]
  ELSE LET p == (s.phase + 1) % 4 IN
       [s EXCEPT !.phase = p, !.step = 0,
                 !.val = CASE p = 0 -> 0 [] p = 1 -> s.delta [] p = 2 -> 0 [] p = 3 -> -s.delta,
                 !.sd  = IF p \in {1, 3} THEN -@ ELSE @]

IntervalValue(s) == Shr(s.val + s.rb, s.vs)
=============================================================================
