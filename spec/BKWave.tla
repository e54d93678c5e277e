------------------------------- MODULE BKWave -------------------------------
(* Step sequences of the waveforms: the amplitude of every step as a         *)
(* function of the phase, and the phase after N steps.                       *)
EXTENDS BKNum

NoiseSeed == 19009

(* number of phases; codes: 0 none 1 square 2 triangle 3 noise 4 saw 5 sine  *)
PhaseCount(wf) == CASE wf \in {0, 1} -> 16 [] wf = 2 -> 32 [] wf = 3 -> 8 [] wf = 4 -> 7 [] wf = 5 -> 32

Square(d, p) == IF d <= 8 THEN (IF p >= (d \div 2) + 1 /\ p <= (d \div 2) + d THEN MaxVol ELSE 0)
                          ELSE (IF p >= 15 - d /\ p <= 14 THEN -MaxVol ELSE 0)

Triangle(p) == LET ramp(k) == Max2(0, 2048 * k - 1) IN
               IF p < 8 THEN ramp(p) ELSE IF p < 16 THEN ramp(15 - p)
               ELSE IF p < 24 THEN -ramp(p - 15) ELSE -ramp(32 - p)

Saw(p) == 32766 - 5461 * p

SineQuarter == <<0, 6392, 12539, 18204, 23169, 27244, 30272, 32137, 32767>>
Sine(p) == LET q == p % 16
               v == SineQuarter[(IF q <= 8 THEN q ELSE 16 - q) + 1] \div 2
           IN IF p < 16 THEN v ELSE -v

(* one step of the 16 bit noise register *)
NoiseBit(r)  == (r + (r \div 4) + (r \div 8) + (r \div 32)) % 2
NoiseNext(r) == (r \div 2) + NoiseBit(r) * 32768

(* N steps: values, phase afterwards and steps left until the next wrap *)
NoiseSteps(u, n) ==
  FoldLeft(LAMBDA a, i:
      LET restart == u.wrap > 0 /\ a.wc <= 1
          r  == IF restart THEN NoiseSeed ELSE a.ph
      IN [v  |-> Append(a.v, IF NoiseBit(r) = 1 THEN 16383 ELSE -16383),
          ph |-> NoiseNext(r),
          wc |-> IF u.wrap = 0 THEN a.wc ELSE IF restart THEN u.wrap ELSE a.wc - 1],
    [v |-> <<>>, ph |-> IF u.phase = 0 THEN NoiseSeed ELSE u.phase, wc |-> u.wc],
    [i \in 1..n |-> i])

(* custom: frames are played in order, restarted after `wc` steps and then   *)
(* every `wrap` steps                                                        *)
CustomSteps(u, n, frames) ==
  LET at(i) == IF u.wrap = 0 \/ i < u.wc THEN (u.phase + i - 1) % u.cnt
               ELSE ((i - u.wc) % u.wrap) % u.cnt
      last  == IF n = 0 THEN u.phase ELSE (at(n) + 1) % u.cnt
  IN [v  |-> TLCEval([i \in 1..n |-> frames[at(i) + 1]]),
      ph |-> last,
      wc |-> IF u.wrap = 0 THEN u.wc ELSE IF n < u.wc THEN u.wc - n ELSE u.wrap - ((n - u.wc) % u.wrap)]

Steps(u, n, frames) ==
  LET cyc(f(_), c) == [v |-> TLCEval([i \in 1..n |-> f((u.phase + i - 1) % c)]), ph |-> (u.phase + n) % c, wc |-> u.wc]
      sq(p) == Square(u.duty, p)
  IN CASE u.wf = 1 -> cyc(sq, 16)
       [] u.wf = 2 -> cyc(Triangle, 32)
       [] u.wf = 3 -> NoiseSteps(u, n)
       [] u.wf = 4 -> cyc(Saw, 7)
       [] u.wf = 5 -> cyc(Sine, 32)
       [] u.wf = 6 -> CustomSteps(u, n, frames)
=============================================================================
