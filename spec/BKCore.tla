-------------------------------- MODULE BKCore --------------------------------
(* Reference model of BlipKit, part 1: contexts, buffers, clocks, dividers,     *)
(* units. The whole system state is one record S; every operation of the        *)
(* public interface is a function from states to states that leaves its result  *)
(* code in S.r, its outputs in S.out and the callbacks it made in S.ev.         *)
EXTENDS BKNum, BKTables, BKWave, BKSlide, BKSeq, BKWaveFile

CONSTANTS Null   \* "-", the absent object

------------------------------------------------------------------------------
(* initial state and object constructors *)

Empty == [y \in {} |-> 0]

Init0 == [c |-> Empty, k |-> Empty, d |-> Empty, u |-> Empty, t |-> Empty, i |-> Empty, x |-> Empty, f |-> Empty, w |-> Empty, q |-> Empty, p |-> Empty,
          info |-> [next |-> T0, div |-> 0], cbr |-> 0, any |-> Null,
          r |-> 0, out |-> <<>>, ev |-> <<>>]

Master(c)  == "m." \o c
TrkDiv(t)  == "d." \o t

(* period of the master clock: rate / 240 seconds, rounded down *)
MasterPeriod(rate) == <<rate \div 240, ((rate % 240) * U20) \div 240>>

NewClock(per, cb, acts) ==
  [ctx |-> Null, per |-> per, nxt |-> T0, dv |-> <<>>, cb |-> cb, acts |-> acts, calls |-> 0]

NewDivider(n, cb, acts, trk) ==
  [own |-> <<"-", "-">>, nx |-> Null, n |-> Max2(1, n), cnt |-> 0, cb |-> cb, acts |-> acts, calls |-> 0, trk |-> trk]

NewContext(nch, rate, alloc) ==
  [nch |-> Clamp(nch, 1, 8), rate |-> Clamp(rate, 16000, 96000), ker |-> "harm", cur |-> T0, dlt |-> T0,
   ks |-> <<>>, us |-> <<>>, eff |-> <<>>, beat |-> <<>>, flag |-> FALSE,
   bt |-> T0, cap |-> 0, acc |-> Rep(Clamp(nch, 1, 8), 0), pul |-> Rep(Clamp(nch, 1, 8), <<>>), alloc |-> alloc]

Unit0 ==
  [ctx |-> Null, wf |-> 0, duty |-> 2, per |-> 0, phase |-> 0, cnt |-> 16, wrap |-> 0, wc |-> 0, mute |-> 0,
   vol |-> Rep(8, 0), last |-> Rep(8, 0), time |-> T0, dat |-> Null,
   snc |-> 0, off |-> 0, end |-> 0, so |-> 0, len |-> 0, sper |-> U20, tf |-> 0, rep |-> 0, repc |-> 0,
   sus0 |-> 0, sus1 |-> 0, fS |-> FALSE, fJ |-> FALSE, fR |-> FALSE,
   cb |-> FALSE, cbm |-> 0, acts |-> <<>>, calls |-> 0, alloc |-> 0]

WfCode == [NONE |-> 0, SQUARE |-> 1, TRIANGLE |-> 2, NOISE |-> 3, SAWTOOTH |-> 4, SINE |-> 5, CUSTOM |-> 6, SAMPLE |-> 7]
WfOf(v) == CASE v = "SQUARE" -> 1 [] v = "TRIANGLE" -> 2 [] v = "NOISE" -> 3 [] v = "SAWTOOTH" -> 4
             [] v = "SINE" -> 5 [] v = "0" -> 0 [] OTHER -> 9

Ret(S, r)     == [S EXCEPT !.r = r]
Out(S, seq)   == [S EXCEPT !.out = @ \o seq]
Event(S, e)   == [S EXCEPT !.ev = Append(@, e)]

------------------------------------------------------------------------------
(* lists that own dividers *)

OwnerList(S, own) == CASE own[1] = "k" -> S.k[own[2]].dv [] own[1] = "e" -> S.c[own[2]].eff
                       [] own[1] = "b" -> S.c[own[2]].beat [] OTHER -> <<>>
SetOwnerList(S, own, l) ==
  CASE own[1] = "k" -> [S EXCEPT !.k[own[2]].dv = l] [] own[1] = "e" -> [S EXCEPT !.c[own[2]].eff = l]
    [] own[1] = "b" -> [S EXCEPT !.c[own[2]].beat = l] [] OTHER -> S
NextDivider(S, d) == IF S.d[d].own[1] = "-" THEN S.d[d].nx ELSE Successor(OwnerList(S, S.d[d].own), d)

AttachDivider(S, d, own) ==
  IF S.d[d].own[1] # "-" THEN Ret(S, INVSTATE)
  ELSE [SetOwnerList(S, own, Append(OwnerList(S, own), d)) EXCEPT !.d[d].own = own]

DetachDivider(S, d) ==
  LET own == S.d[d].own IN
  IF own[1] = "-" THEN S
  ELSE [SetOwnerList(S, own, Without(OwnerList(S, own), d)) EXCEPT !.d[d].own = <<"-", "-">>, !.d[d].nx = NextDivider(S, d)]

DetachAll(S, l) == FoldLeft(DetachDivider, S, l)
ResetCounters(S, l) == FoldLeft(LAMBDA X, d: [X EXCEPT !.d[d].cnt = 0], S, l)

------------------------------------------------------------------------------
(* clocks *)

Flag(S, c) == IF c = Null THEN S ELSE [S EXCEPT !.c[c].flag = TRUE]

(* the next tick is now, dividers start again *)
ResetClock(S, k) ==
  LET c  == S.k[k].ctx
      S1 == ResetCounters(Flag(S, c), S.k[k].dv)
  IN [S1 EXCEPT !.k[k].nxt = IF c = Null THEN T0 ELSE S.c[c].cur]

(* where: "last", "first" or the clock to insert before *)
AttachClock(S, k, c, where) ==
  IF S.k[k].ctx # Null THEN Ret(S, INVSTATE)
  ELSE LET ks  == S.c[c].ks
           bef == CASE where = "first" -> First(ks) [] where = "last" -> Null [] OTHER -> where
       IN IF bef # Null /\ ~Has(ks, bef) THEN Ret(S, INVVAL)
          ELSE LET S1 == ResetClock([S EXCEPT !.k[k].ctx = c], k)
               IN [S1 EXCEPT !.c[c].ks = IF bef = Null THEN Append(ks, k) ELSE Before(ks, k, bef)]

DetachClock(S, k) ==
  LET c == S.k[k].ctx IN
  IF c = Null THEN S
  ELSE ResetClock([Flag(S, c) EXCEPT !.c[c].ks = Without(@, k), !.k[k].ctx = Null], k)

AttachToContext(S, d, c, type) ==
  IF type \notin {"eff", "beat"} THEN Ret(S, INVATTR)
  ELSE LET S1 == AttachDivider(S, d, <<IF type = "eff" THEN "e" ELSE "b", c>>)
           S2 == IF S1.r < 0 \/ S1.k[Master(c)].ctx # Null THEN S1 ELSE AttachClock(S1, Master(c), c, "first")
       IN S2

------------------------------------------------------------------------------
(* buffers *)

(* time `t` of a unit is counted from the end of the frames already run *)
EndBuffers(S, c, t) ==
  LET e == TAdd(S.c[c].bt, t)
      n == e[1] + Bool(e[2] # 0)
  IN IF n > S.c[c].cap THEN [S EXCEPT !.c[c].cap = n] ELSE S

Tap(ker, f, j) ==
  CASE ker = "tap"   -> IF j = 0 THEN 16384 ELSE 0
    [] ker = "slope" -> IF j = 0 THEN 16384 - 256 * f ELSE IF j = 1 THEN 256 * f ELSE 0
    [] ker = "frame" -> IF j = 0 THEN 32767 ELSE 0
    [] ker = "sinc"  -> KernelSinc[f + 1][j + 1]
    [] ker = "harm"  -> KernelHarm[f + 1][j + 1]
KernelWidth(ker) == CASE ker \in {"tap", "frame"} -> 1 [] ker = "slope" -> 2 [] OTHER -> 32

(* pulses are <<frame, 5 bit fraction, delta, kernel>>; the frame counts from the first unread one *)
MixFrames(pul, n) ==
  LET near == SelectSeq(pul, LAMBDA p: p[1] < n)
      w    == FoldLeft(LAMBDA a, p: Max2(a, KernelWidth(p[4])), 0, near)
      at   == FoldLeft(LAMBDA b, p: [b EXCEPT ![p[1]] = Append(@, p)], TLCEval([o \in -32..n - 1 |-> <<>>]), near)
      sum(k) == FoldLeft(LAMBDA a, o: IF at[o] = <<>> THEN a
                                      ELSE FoldLeft(LAMBDA b, p: WAdd(b, Tap(p[4], p[2], k - o) * p[3]), a, at[o]),
                         0, [j \in 1..w |-> k - w + j])
  IN TLCEval([k \in 1..n |-> sum(k - 1)])

(* integrate with high pass, scale, saturate *)
Accumulate(acc, frames) ==
  FoldLeft(LAMBDA a, f: LET v == WAdd(a.acc - (a.acc \div 512), f)
                        IN [acc |-> v, o |-> Append(a.o, Clamp(v \div 16384, -32768, 32767))],
           [acc |-> acc, o |-> <<>>], frames)

Available(S, c) == S.c[c].bt[1]

Read(S, c, size) ==
  LET C == S.c[c]
      n == Min2(size, Available(S, c))
      R == TLCEval([ch \in 1..C.nch |-> Accumulate(C.acc[ch], MixFrames(C.pul[ch], n))])
  IN IF n <= 0 THEN Ret(S, 0)
     ELSE [S EXCEPT !.r = n,
            !.out = @ \o TLCEval([j \in 1..n * C.nch |-> R[((j - 1) % C.nch) + 1].o[((j - 1) \div C.nch) + 1]]),
            !.c[c].acc = TLCEval([ch \in 1..C.nch |-> R[ch].acc]),
            !.c[c].pul = TLCEval([ch \in 1..C.nch |-> FoldLeft(LAMBDA a, p: IF p[1] - n < -31 THEN a
                                                                    ELSE Append(a, <<p[1] - n, p[2], p[3], p[4]>>),
                                                       <<>>, C.pul[ch])]),
            !.c[c].cap = @ - n,
            !.c[c].bt  = <<@[1] - n, @[2]>>]

AddPulses(S, c, ch, ps) == IF ps = <<>> THEN S ELSE [S EXCEPT !.c[c].pul[ch] = @ \o ps]

------------------------------------------------------------------------------
(* units playing a waveform *)

(* the pulses of one channel: n steps of `per` from time t on *)
Pulses(c, t, per, vals, vol, last) ==
  LET base == TAdd(c.bt, t)
      amp(i) == (vals[i] * vol) \div 32768
      at(i)  == base[2] + (i - 1) * per
  IN FoldLeft(LAMBDA a, i: LET d == amp(i) - (IF i = 1 THEN last ELSE amp(i - 1)) IN
                IF d = 0 THEN a ELSE Append(a, <<base[1] + (at(i) \div U20), (at(i) % U20) \div 32768, d, c.ker>>),
              <<>>, [i \in 1..Len(vals) |-> i])

RunWave(S, id, end) ==
  LET U   == S.u[id]
      c   == U.ctx
      chs == {ch \in 1..S.c[c].nch : U.vol[ch] # 0}
      n   == IF TLe(end, U.time) THEN 0 ELSE ((TInt(TSub(end, U.time)) - 1) \div U.per) + 1
      St  == Steps(U, n, IF U.wf = 6 THEN S.x[U.dat].frames ELSE <<>>)
      S1  == FoldLeft(LAMBDA X, ch: IF ch \notin chs THEN X
                                    ELSE AddPulses(X, c, ch, Pulses(S.c[c], U.time, U.per, St.v, U.vol[ch], U.last[ch])),
                      S, [ch \in 1..S.c[c].nch |-> ch])
  IN IF U.mute # 0 \/ chs = {} THEN [S EXCEPT !.u[id].time = end]
     ELSE IF n = 0 THEN [S EXCEPT !.u[id].phase = St.ph]
     ELSE [S1 EXCEPT !.u[id].phase = St.ph, !.u[id].wc = St.wc,
             !.u[id].last = TLCEval([ch \in 1..8 |-> IF ch \in chs THEN (St.v[n] * U.vol[ch]) \div 32768 ELSE U.last[ch]]),
             !.u[id].time = TAdd(TAdd(U.time, TOf((n - 1) * U.per)), TOf(U.per))]
=============================================================================
