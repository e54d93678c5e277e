------------------------------- MODULE BlipKit -------------------------------
(* Reference model of BlipKit, part 2: everything that may run callbacks (and   *)
(* so may run any other operation): ticking clocks and dividers, rendering,     *)
(* units, tracks, instruments, sample data; and the table `Do` of operations.   *)
EXTENDS BKCore

RECURSIVE Do(_, _)

IsTrack(S, u) == u \in DOMAIN S.t
Missing == -77777777        \* what the harness prints for an attribute that cannot be read

------------------------------------------------------------------------------
(* callbacks: actions <<at, op>> run in the call with number `at`, 0 is every call *)

Nested(S, op) ==
  LET S1 == Do([S EXCEPT !.r = 0], op) IN [Event(S1, <<"a", S1.r>>) EXCEPT !.out = S.out]

RunActs(S, acts, n) ==
  FoldLeft(LAMBDA X, a: IF a[1] = n \/ a[1] = 0 THEN Nested(X, a[2]) ELSE X, S, acts)

AnyTime(S) == IF S.any = Null THEN T0 ELSE S.c[S.any].cur

ClockCallback(S, k) ==
  LET t  == IF S.k[k].ctx = Null THEN T0 ELSE S.c[S.k[k].ctx].cur
      S1 == Event([S EXCEPT !.k[k].calls = @ + 1], <<"k", k, t[1], t[2], 1>>)
  IN RunActs(S1, S.k[k].acts, S1.k[k].calls)

DividerCallback(S, d) ==
  LET t  == AnyTime(S)
      S1 == Event([S EXCEPT !.d[d].calls = @ + 1], <<"d", d, t[1], t[2], S.info.div, 1>>)
  IN RunActs(S1, S.d[d].acts, S1.d[d].calls)

(* the callback of a sample; its result is left in `cbr` *)
SampleCallback(S, u, code) ==
  LET S1 == Event([S EXCEPT !.u[u].calls = @ + 1, !.cbr = S.u[u].cbm], <<"s", u, code, 1>>)
  IN IF ~S.u[u].cb THEN [S EXCEPT !.cbr = 0] ELSE [RunActs(S1, S.u[u].acts, S1.u[u].calls) EXCEPT !.r = S.r]

------------------------------------------------------------------------------
(* units: attributes *)

VolIndex == [VOLUME_0 |-> 1, VOLUME_1 |-> 2, VOLUME_2 |-> 3, VOLUME_3 |-> 4,
             VOLUME_4 |-> 5, VOLUME_5 |-> 6, VOLUME_6 |-> 7, VOLUME_7 |-> 8]

(* data is used by a list of units; a unit registered again moves to the end *)
Register(S, u, x) ==
  LET o  == S.u[u].dat
      S1 == IF o = Null THEN S ELSE [S EXCEPT !.x[o].users = Without(@, u)]
      S2 == IF x = Null THEN S1 ELSE [S1 EXCEPT !.x[x].users = Append(@, u)]
  IN [S2 EXCEPT !.u[u].dat = x]

SetWave(S, u, v) ==
  LET w == WfOf(v)
      S1 == [S EXCEPT !.u[u].cnt = PhaseCount(w), !.u[u].phase = IF S.u[u].wf = w THEN @ ELSE 0, !.u[u].wf = w]
  IN IF w = 9 THEN Ret(S, INVVAL) ELSE Register(S1, u, Null)

(* where a sample starts: first frame, or last one if its range is reversed; the callback may change the range before *)
SetPhase(S, u, v) ==
  LET S1   == SampleCallback(S, u, 3)
      U    == S1.u[u]
      back == U.end <= U.off
      at   == Clamp(IF v >= 0 THEN v ELSE IF back THEN U.len - 1 ELSE 0, 0, U.len - 1)
  IN IF S.u[u].wf # 7 THEN [S EXCEPT !.u[u].phase = Clamp(v, 0, S.u[u].cnt - 1)]
     ELSE [S1 EXCEPT !.u[u].sper = IF v >= 0 THEN @ ELSE IF back THEN -Abs(@) ELSE Abs(@), !.u[u].phase = at]

SetRelease(S, u, v) ==
  LET U    == S.u[u]
      jump == v # 0 /\ U.wf = 7 /\ U.fJ /\ U.mute = 0
  IN IF ~U.fS /\ v # 0 THEN S
     ELSE [S EXCEPT !.u[u].fR = v # 0,
                    !.u[u].phase = IF ~jump THEN @
                                   ELSE IF U.sper > 0 THEN Min2(U.sus1, U.len - 1) ELSE Max2(0, U.sus0 - 1)]

UnitSet(S, u, a, v) ==
  CASE a = "DUTY_CYCLE" ->
         LET d == Clamp(v, 1, 15) IN
         [S EXCEPT !.u[u].phase = IF S.u[u].wf = 1 /\ d > S.u[u].duty /\ @ < d THEN 0 ELSE @, !.u[u].duty = d]
    [] a = "WAVEFORM"            -> SetWave(S, u, v)
    [] a = "PHASE"               -> SetPhase(S, u, v)
    [] a = "PHASE_WRAP"          -> LET w == IF v = 0 THEN 0 ELSE Max2(v, 2)
                                    IN [S EXCEPT !.u[u].phase = 0, !.u[u].wrap = w, !.u[u].wc = w]
    [] a = "PERIOD"              -> [S EXCEPT !.u[u].per = Abs(v)]
    [] a = "VOLUME"              -> [S EXCEPT !.u[u].vol = Rep(8, Clamp(v, 0, MaxVol))]
    [] a \in DOMAIN VolIndex     -> [S EXCEPT !.u[u].vol[VolIndex[a]] = Clamp(v, 0, MaxVol)]
    [] a = "MUTE"                -> [S EXCEPT !.u[u].mute = Bool(v # 0)]
    [] a = "SAMPLE_REPEAT"       -> [S EXCEPT !.u[u].rep = IF v \in 0..2 THEN v ELSE 0]
    [] a = "SAMPLE_PERIOD"       -> [S EXCEPT !.u[u].sper = LET p == Clamp(Abs(v), 4096, 268435456) IN IF @ < 0 THEN -p ELSE p]
    [] a = "SAMPLE_IMMED_RELEASE" -> [S EXCEPT !.u[u].fJ = v # 0]
    [] a = "FLAG_RELEASE"        -> SetRelease(S, u, v)
    [] OTHER                     -> Ret(S, INVATTR)

(* <<value>>, or <<>> if the attribute cannot be read *)
UnitGet(S, u, a) ==
  LET U == S.u[u] IN
  CASE a = "WAVEFORM"            -> <<U.wf>>
    [] a = "DUTY_CYCLE"          -> <<U.duty>>
    [] a = "PERIOD"              -> <<U.per>>
    [] a = "PHASE"               -> <<U.phase>>
    [] a = "PHASE_WRAP"          -> <<U.wrap>>
    [] a = "NUM_PHASES"          -> <<IF U.wf = 7 THEN U.len ELSE U.cnt>>
    [] a \in DOMAIN VolIndex     -> <<U.vol[VolIndex[a]]>>
    [] a = "MUTE"                -> <<U.mute>>
    [] a = "SAMPLE_REPEAT"       -> <<U.rep>>
    [] a = "SAMPLE_PERIOD"       -> <<Abs(U.sper)>>
    [] a = "SAMPLE_IMMED_RELEASE" -> <<Bool(U.fJ)>>
    [] a = "FLAG_RELEASE"        -> <<Bool(U.fR)>>
    [] OTHER                     -> <<>>

------------------------------------------------------------------------------
(* units: sample data *)

(* make the data the waveform (type "WAVEFORM") or the sample of the unit *)
TakeData(S, u, x, type) ==
  LET U == S.u[u]
      X == S.x[x]
      S1 == [S EXCEPT !.u[u] = [U EXCEPT !.wf = 7, !.cnt = 1, !.len = X.n, !.snc = X.nch, !.off = 0, !.end = X.n, !.so = 0,
                                         !.sper = Abs(@), !.phase = 0, !.rep = 0, !.repc = 0, !.sus0 = 0, !.sus1 = 0,
                                         !.fS = FALSE, !.fJ = FALSE, !.fR = FALSE]]
  IN IF type = "WAVEFORM"
     THEN IF X.n < 2 THEN Ret(S, NUMFRM)
          ELSE [S EXCEPT !.u[u] = [U EXCEPT !.wf = 6, !.cnt = Min2(X.n, 64), !.phase = 0, !.off = 0, !.end = X.n, !.so = 0, !.repc = 0]]
     ELSE IF X.nch # 1 /\ U.ctx # Null /\ X.nch # S.c[U.ctx].nch THEN Ret(S, NUMCH)
     ELSE IF X.n < 2 THEN Ret(S, NUMFRM)
     ELSE S1

(* new data begins: the callback may set its ranges *)
Begun(S, u, type) == IF type = "SAMPLE" THEN SampleCallback(S, u, 3) ELSE S

DropData(S, u, type) ==
  LET U == S.u[u] IN
  IF type = "WAVEFORM"
  THEN IF U.wf # 6 THEN S ELSE [S EXCEPT !.u[u] = [U EXCEPT !.wf = 0, !.off = 0, !.end = 0]]
  ELSE IF U.wf # 7 THEN S
  ELSE [S EXCEPT !.u[u] = [U EXCEPT !.wf = 0, !.off = 0, !.end = 0, !.sus0 = 0, !.sus1 = 0, !.phase = 0, !.rep = 0,
                                    !.fS = FALSE, !.fJ = FALSE, !.fR = FALSE]]

SetData(S, u, x, type) ==
  LET S1 == IF x = Null THEN DropData(S, u, type)
            ELSE IF S.u[u].ctx = Null THEN Ret(S, INVSTATE)
            ELSE TakeData(S, u, x, type)
  IN IF S1.r < 0 THEN [S1 EXCEPT !.u[u].wf = IF @ \in {6, 7} THEN 0 ELSE @]
     ELSE IF x # Null THEN Begun(Register(S1, u, x), u, type)
     ELSE IF S1.u[u].wf \notin {6, 7} THEN Register(S1, u, x)
     ELSE S1

------------------------------------------------------------------------------
(* units: play ranges of samples *)

FromEnd(v, n) == Clamp(IF v < 0 THEN v + n + 1 ELSE v, 0, n)

SetRange(S, u, a, b) ==
  LET U    == S.u[u]
      n    == S.x[U.dat].n
      off  == FromEnd(a, n)
      end  == FromEnd(b, n)
      len  == Abs(off - end)
      mv   == U.phase + (Min2(U.off, U.end) - Min2(off, end))
      ph   == IF mv < 0 \/ mv >= len THEN 0 ELSE mv
      ph1  == IF U.repc # 0 THEN ph
              ELSE IF off < end /\ U.phase = len - 1 THEN 0
              ELSE IF off > end /\ U.phase = 0 THEN len - 1
              ELSE ph
  IN IF U.dat = Null THEN S
     ELSE [S EXCEPT !.u[u] = [U EXCEPT !.off = off, !.end = end, !.so = Min2(off, end), !.len = len,
                                       !.sper = IF off > end THEN -Abs(@) ELSE Abs(@), !.phase = ph1]]

SetSustain(S, u, a, b) ==
  LET U == S.u[u]
      o == FromEnd(a, U.len)
      e == FromEnd(b, U.len)
  IN IF U.dat = Null THEN S
     ELSE [S EXCEPT !.u[u].sus0 = Min2(o, e), !.u[u].sus1 = Max2(o, e), !.u[u].fS = o # e]

------------------------------------------------------------------------------
(* units: playing *)

(* the phase left the range: play on or halt; sets `mute` to halt *)
SampleEnd(S, u) ==
  LET S1  == SampleCallback(S, u, 4)
      m   == IF S.u[u].cb THEN S1.cbr ELSE S.u[u].rep
      U   == S1.u[u]
      n   == U.len
      dir == IF n <= 0 THEN 0 ELSE IF U.phase >= n THEN 1 ELSE IF U.phase < 0 THEN -1 ELSE 0
      ph  == IF n <= 0 THEN 0 ELSE U.phase % n
      pal == IF dir = 1 THEN n - ph - 1 ELSE IF dir = -1 THEN Min2(n - ph, n - 1) ELSE ph
      go  == IF m \notin {1, 2} \/ n <= 0 THEN 0
             ELSE IF dir = 0 THEN (IF U.sper < 0 THEN -1 ELSE 1)       \* the callback moved the phase
             ELSE IF m = 1 THEN dir ELSE -dir
  IN [S1 EXCEPT !.u[u] = [U EXCEPT !.phase = IF m = 2 THEN pal ELSE ph, !.repc = @ + 1,
                                   !.sper = CASE go = 0 -> @ [] go = 1 -> Abs(@) [] go = -1 -> -Abs(@),
                                   !.mute = IF go = 0 THEN 1 ELSE @]]

(* X: [S, time, halt]; one output frame *)
SampleFrame(S, u, t) ==
  LET U  == S.u[u]
      c  == U.ctx
      C  == S.c[c]
      at == TAdd(TAdd(C.bt, t), <<0, U.tf>>)
      fr(ch) == S.x[U.dat].frames[(U.so + U.phase) * U.snc + (IF U.snc = 1 THEN 0 ELSE ch - 1) + 1]
      amp == TLCEval([ch \in 1..C.nch |-> (fr(ch) * U.vol[ch]) \div 32768])
      S1 == FoldLeft(LAMBDA X, ch: IF amp[ch] = U.last[ch] THEN X
                                   ELSE AddPulses(X, c, ch, <<<<at[1], at[2] \div 32768, amp[ch] - U.last[ch], C.ker>>>>),
                     S, [ch \in 1..C.nch |-> ch])
      f  == U.tf + U.sper
  IN [S1 EXCEPT !.u[u] = [U EXCEPT !.last = TLCEval([ch \in 1..8 |-> IF ch <= C.nch THEN amp[ch] ELSE U.last[ch]]),
                                   !.tf = f % U20, !.phase = @ + (f \div U20)]]

(* X: [s, t, halt]; the time stands still when the sample halts *)
SampleStep(X, u) ==
  LET S1   == SampleFrame(X.s, u, X.t)
      out  == S1.u[u].phase < 0 \/ S1.u[u].phase >= S1.u[u].len
      S2   == IF out THEN SampleEnd(S1, u) ELSE S1
      U    == S2.u[u]
      halt == out /\ (U.mute = 1 \/ U.len < 2)
      ph   == IF ~U.fS \/ U.fR THEN U.phase
              ELSE IF U.sper > 0 THEN (IF U.phase >= U.sus1 THEN U.sus0 ELSE U.phase)
              ELSE (IF U.phase < U.sus0 THEN U.sus1 - 1 ELSE U.phase)
  IN IF halt THEN [s |-> S2, t |-> X.t, halt |-> TRUE]
     ELSE [s |-> [S2 EXCEPT !.u[u].phase = ph], t |-> TAdd(X.t, <<1, 0>>), halt |-> FALSE]

RunSample(S, u, t, end) ==
  LET R == While(LAMBDA X: ~X.halt /\ TLt(X.t, end), LAMBDA X: SampleStep(X, u), [s |-> S, t |-> t, halt |-> FALSE])
  IN [R.s EXCEPT !.u[u].time = R.t]

RunUnit(S, u, end) ==
  LET U  == S.u[u]
      S1 == IF U.per = 0 \/ U.wf = 0 THEN S
            ELSE IF U.wf < 7 THEN RunWave(S, u, end)
            ELSE IF U.mute # 0 \/ Abs(U.end - U.off) < 2 THEN [S EXCEPT !.u[u].time = end]
            ELSE RunSample(S, u, U.time, end)
      t  == TMax(S1.u[u].time, end)
  IN EndBuffers([S1 EXCEPT !.u[u].time = t], U.ctx, t)

UnitClear(S, u) ==
  LET S1 == SetData(SetData(S, u, Null, "WAVEFORM"), u, Null, "SAMPLE")
  IN [S1 EXCEPT !.u[u] = [@ EXCEPT !.fS = FALSE, !.fJ = FALSE, !.fR = FALSE, !.wrap = 0, !.wc = 0, !.off = 0, !.end = 0,
                                   !.rep = 0, !.repc = 0, !.sus0 = 0, !.sus1 = 0, !.sper = U20, !.tf = 0]]

UnitReset(S, u) ==
  LET c == S.u[u].ctx IN
  [UnitClear(S, u) EXCEPT !.u[u] = [@ EXCEPT !.wf = 0, !.phase = 0, !.time = IF c = Null THEN T0 ELSE S.c[c].dlt, !.last = Rep(8, 0)]]

UnitAttach(S, u, c) ==
  LET U == S.u[u] IN
  IF U.ctx # Null THEN Ret(S, INVSTATE)
  ELSE IF U.wf = 7 /\ U.snc # 1 /\ U.snc # S.c[c].nch THEN Ret(S, NUMCH)
  ELSE [S EXCEPT !.u[u].ctx = c, !.u[u].time = S.c[c].dlt, !.c[c].us = Append(@, u)]

UnitDetach(S, u) ==
  LET c == S.u[u].ctx IN
  IF c = Null THEN S ELSE [S EXCEPT !.u[u].ctx = Null, !.u[u].time = T0, !.c[c].us = Without(@, u)]

------------------------------------------------------------------------------
(* tones *)

TonePeriod(tone, rate) ==
  LET t  == Clamp(tone, 0, 96 * U20)
      f  == (t % U20) \div 16
      i  == t \div U20
      p  == TonePeriods[i + 1] * (65536 - f) + TonePeriods[Min2(i + 1, 96) + 1] * f
  IN (p \div 262144) * rate          \* a quarter of the period

ToneCycle(tone, rate, n) ==
  LET q == TonePeriod(tone, rate)
      Four(v) == IF v >= 536870912 THEN 4 * (v - 1073741824) ELSE 4 * v      \* wraps like the 32 bit value
  IN Four(q \div n) + (4 * (q % n)) \div n

Log2Period(tone) ==
  LET t  == Clamp(tone, 0, 96 * U20)
      f  == (t % U20) \div 4096
      i  == t \div U20
  IN ((Log2Periods[i + 1] \div 4) * (256 - f) + (Log2Periods[Min2(i + 1, 96) + 1] \div 4) * f) \div 64

------------------------------------------------------------------------------
(* tracks: the unit follows volume, note and duty cycle *)

NoteNone == -1

Track0 ==
  [wf |-> 0, duty |-> 0, spitch |-> 0, mvol |-> 0, vol |-> Slide0(15), pan |-> Slide0(15), cur |-> 0, note |-> Slide0(0), pitch |-> 0,
   trem |-> Interval0(14), tremD |-> Slide0(15), tremS |-> Slide0(14), vib |-> Interval0(0), vibD |-> Slide0(0), vibS |-> Slide0(14),
   aOff |-> 0, aDel |-> 0, aCnt |-> 0, arp |-> Rep(8, 0),
   aD |-> 0, aC |-> 0, iD |-> 0, iC |-> 0, eD |-> 0, eC |-> 0,
   ins |-> Null, ist |-> Rep(4, SeqState0), iph |-> 0, iact |-> 0,
   fI |-> FALSE, fA |-> FALSE, fP |-> FALSE, fT |-> FALSE, fIg |-> FALSE, uV |-> FALSE, uN |-> FALSE, uD |-> FALSE,
   ePort |-> FALSE, eVol |-> FALSE, ePan |-> FALSE, eTrem |-> FALSE, eVib |-> FALSE, alloc |-> 0]

Scale(a, b) == (a * b) \div 32768

TrackVolume(S, t) ==
  LET T   == S.t[t]
      v0  == SlideValue(T.vol)
      v1  == IF T.fIg /\ v0 # 0 THEN MaxVol ELSE v0
      iv  == T.ist[1].val
      v2  == IF T.fI /\ (~T.fIg \/ iv = 0) THEN Scale(v1, iv) ELSE v1
      v3  == IF T.eTrem /\ ~T.fIg THEN Scale(v2, MaxVol - Abs(IntervalValue(T.trem))) ELSE v2
      v   == Scale(Clamp(v3, 0, MaxVol), T.mvol)
      p0  == SlideValue(T.pan) + (IF T.fI THEN T.ist[2].val ELSE 0)
      p   == Clamp(p0, -MaxVol, MaxVol)
  IN IF p0 # 0 /\ T.fP
     THEN [S EXCEPT !.u[t].vol[1] = Clamp(IF p > 0 THEN Scale(MaxVol - p, v) ELSE v, 0, MaxVol),
                    !.u[t].vol[2] = Clamp(IF p < 0 THEN Scale(MaxVol + p, v) ELSE v, 0, MaxVol)]
     ELSE [S EXCEPT !.u[t].vol = Rep(8, v)]

TrackTone(T) == SlideValue(T.note) + (IF T.fA THEN T.aDel ELSE 0) + (IF T.eVib THEN IntervalValue(T.vib) ELSE 0)
                + (IF T.fI THEN T.ist[3].val ELSE 0) + T.pitch

TrackNote(S, t) ==
  LET T == S.t[t]
      U == S.u[t]
  IN IF U.ctx = Null THEN S
     ELSE IF T.wf # 7 THEN [S EXCEPT !.u[t].per = Abs(ToneCycle(TrackTone(T), S.c[U.ctx].rate, Min2(U.cnt, 64)))]
     ELSE UnitSet(S, t, "SAMPLE_PERIOD", Log2Period(TrackTone(T) + T.spitch))

TrackDuty(S, t) ==
  LET T == S.t[t] IN UnitSet(S, t, "DUTY_CYCLE", IF T.fI /\ T.ist[4].val # 0 THEN T.ist[4].val ELSE T.duty)

TrackUpdate(S, t) ==
  LET S1 == IF S.t[t].uV THEN [TrackVolume(S, t) EXCEPT !.t[t].uV = FALSE] ELSE S
      S2 == IF S1.t[t].uN THEN [TrackNote(S1, t) EXCEPT !.t[t].uN = FALSE] ELSE S1
  IN IF S2.t[t].uD THEN [TrackDuty(S2, t) EXCEPT !.t[t].uD = FALSE] ELSE S2

UpdateAll(S, t) == [S EXCEPT !.t[t].uV = TRUE, !.t[t].uN = TRUE, !.t[t].uD = TRUE]
IgnoreVolume(S, t) == [S EXCEPT !.t[t].uV = TRUE, !.t[t].fIg = S.t[t].wf = 2 /\ S.t[t].fT]

------------------------------------------------------------------------------
(* tracks: instruments. An instrument is [q: four sequences or <<>>, users, alloc] *)

NoSeq == <<>>
NumSeq(S, i) == FoldLeft(LAMBDA a, n: IF S.i[i].q[n] = NoSeq THEN a ELSE n, 0, <<1, 2, 3, 4>>)
InsSeq(S, t, n) == IF S.t[t].ins = Null THEN NoSeq ELSE S.i[S.t[t].ins].q[n]
DefaultValue == <<MaxVol, 0, 0, 0>>

SetSeqValue(S, t, n, v) ==
  [S EXCEPT !.t[t].ist[n] = IF InsSeq(S, t, n) = NoSeq THEN [@ EXCEPT !.val = v] ELSE SeqSetValue(InsSeq(S, t, n)[1], @, v)]

DefaultValues(S, t) ==
  FoldLeft(LAMBDA X, n: SetSeqValue(X, t, n, IF InsSeq(X, t, n) = NoSeq THEN DefaultValue[n] ELSE 0), S, <<1, 2, 3, 4>>)

(* after a change of sequences: the unit has to follow those there are *)
InsFlags(S, t) ==
  [S EXCEPT !.t[t].uV = @ \/ InsSeq(S, t, 1) # NoSeq \/ InsSeq(S, t, 2) # NoSeq,
            !.t[t].uN = @ \/ InsSeq(S, t, 3) # NoSeq, !.t[t].uD = @ \/ InsSeq(S, t, 4) # NoSeq]

RECURSIVE SetNote(_, _, _)
RECURSIVE InsPhase(_, _, _)

(* 0 mute, 1 attack, 2 release *)
InsPhase(S, t, ph) ==
  LET i  == S.t[t].ins
      S1 == FoldLeft(LAMBDA X, n: IF X.i[i].q[n] = NoSeq THEN X
                                  ELSE LET R == SeqPhase(X.i[i].q[n][1], X.t[t].ist[n], ph)
                                       IN [X EXCEPT !.t[t].ist[n] = R.s, !.t[t].iact = @ + Bool(R.res # "fin")],
                     [S EXCEPT !.t[t].iact = 0], <<1, 2, 3, 4>>)
      p1 == IF S1.t[t].iact = 0 /\ ph = 2 THEN 0 ELSE ph
  IN IF i = Null \/ (ph = 2 /\ S.t[t].iph = 2) THEN S
     ELSE IF p1 # 0 THEN [S1 EXCEPT !.t[t].iph = p1]
     ELSE IF S1.t[t].iph = 0 THEN S1
     ELSE SetNote([S1 EXCEPT !.t[t].iph = 0], t, -2)

(* envelopes advance with every tick, sequences with those of the instrument divider (level 1) *)
InsTick(S, t, level) ==
  LET i == S.t[t].ins IN
  FoldLeft(LAMBDA X, n:
      IF n > NumSeq(S, i) \/ X.i[i].q[n] = NoSeq THEN X
      ELSE LET R  == SeqStep(X.i[i].q[n][1], X.t[t].ist[n], level)
               X1 == [X EXCEPT !.t[t].ist[n] = R.s]
               X2 == [X1 EXCEPT !.t[t].iact = @ - 1]
           IN IF R.res # "fin" THEN X1
              ELSE IF X2.t[t].iact = 0 THEN InsPhase(X2, t, 0) ELSE X2,
    S, <<1, 2, 3, 4>>)

InitDuty(S, t) ==
  IF S.t[t].fI /\ InsSeq(S, t, 4) # NoSeq THEN SetSeqValue(S, t, 4, S.t[t].duty) ELSE S

Attack(S, t) == InsFlags(InsPhase([InitDuty(S, t) EXCEPT !.t[t].iC = 0], t, 1), t)

------------------------------------------------------------------------------
(* tracks: notes *)

SetNote(S, t, v) ==
  LET T    == S.t[t]
      n    == Clamp(v, 0, 96 * U20)
      new  == T.cur = NoteNone
      S1   == [S EXCEPT !.t[t].note = SlideSetValue(@, n)]
      S2   == IF ~new THEN S1
              ELSE LET A == [S1 EXCEPT !.t[t].note = SlideHalt(@, TRUE)]
                   IN [(IF T.fI THEN Attack(A, t) ELSE A) EXCEPT !.t[t].aOff = 0]
      S3   == IF T.wf = 7 /\ new THEN UnitSet(S2, t, "PHASE", -1) ELSE S2
      on   == UnitSet([S3 EXCEPT !.t[t].cur = n, !.u[t].mute = 0], t, "FLAG_RELEASE", 0)
      R    == [S EXCEPT !.t[t].cur = NoteNone]
      rel  == IF T.fI THEN UnitSet(InsFlags(InsPhase(R, t, 2), t), t, "FLAG_RELEASE", 1)
              ELSE IF S.u[t].fS THEN UnitSet(R, t, "FLAG_RELEASE", 1)
              ELSE [R EXCEPT !.t[t].note = SlideHalt(@, FALSE), !.u[t].mute = 1]
      M    == [R EXCEPT !.t[t].note = SlideHalt(@, TRUE)]
      mut  == UnitSet([(IF T.fI THEN InsFlags(InsPhase(M, t, 0), t) ELSE M) EXCEPT !.u[t].mute = 1], t, "FLAG_RELEASE", 0)
      X    == CASE v >= 0 -> on [] v = -1 -> rel [] v = -2 -> mut [] OTHER -> S
  IN [X EXCEPT !.t[t].uN = TRUE]

LeaveInstrument(S, t) ==
  LET i == S.t[t].ins IN
  IF i = Null THEN S ELSE [S EXCEPT !.i[i].users = Without(@, t), !.t[t].ins = Null]

EnterInstrument(S, t, i) ==
  InsPhase(DefaultValues([LeaveInstrument(S, t) EXCEPT !.i[i].users = <<t>> \o @, !.t[t].ins = i], t), t, 1)

SetInstrument(S, t, i) ==
  LET off == [LeaveInstrument(S, t) EXCEPT !.t[t].fI = FALSE]
      on  == InitDuty([EnterInstrument(S, t, i) EXCEPT !.t[t].fI = TRUE, !.t[t].iC = 0], t)
      S1  == IF i = S.t[t].ins THEN S
             ELSE IF i = Null THEN (IF S.t[t].cur = NoteNone THEN SetNote(off, t, -2) ELSE off)
             ELSE IF on.t[t].cur = NoteNone THEN InsFlags(InsPhase(on, t, 0), t) ELSE Attack(on, t)
  IN UpdateAll(S1, t)

------------------------------------------------------------------------------
(* tracks: attributes *)

SetSlide(S, t, a, v, set(_, _)) ==
  CASE a = "EFFECT_VOLUME_SLIDE" -> [S EXCEPT !.t[t].vol = set(@, v), !.t[t].uV = TRUE]
    [] a = "EFFECT_PORTAMENTO"   -> [S EXCEPT !.t[t].note = set(@, v), !.t[t].uN = TRUE]
    [] a = "EFFECT_PANNING_SLIDE" -> [S EXCEPT !.t[t].pan = set(@, v), !.t[t].uV = TRUE]

EffectMaxSteps == 65536

(* values: any number, those missing are 0 *)
SetEffect(S, t, a, vals) ==
  LET v(i)  == IF i <= Len(vals) THEN vals[i] ELSE 0
      st    == Clamp(v(1), 0, EffectMaxSteps)
      sl    == Clamp(v(3), 0, EffectMaxSteps)
      dl    == IF a = "EFFECT_TREMOLO" THEN Clamp(v(2), 0, MaxVol) ELSE v(2)
      on    == v(1) # 0
  IN CASE a = "EFFECT_VOLUME_SLIDE"  -> [SetSlide(S, t, a, st, SlideSetSteps) EXCEPT !.t[t].eVol = on]
       [] a = "EFFECT_PORTAMENTO"    -> [SetSlide(S, t, a, st, SlideSetSteps) EXCEPT !.t[t].ePort = on]
       [] a = "EFFECT_PANNING_SLIDE" -> [SetSlide(S, t, a, st, SlideSetSteps) EXCEPT !.t[t].ePan = on]
       [] a = "EFFECT_TREMOLO" ->
            [S EXCEPT !.t[t].tremD = SlideSet(@, dl, sl), !.t[t].tremS = SlideSet(@, st, sl),
                      !.t[t].trem = IF sl = 0 THEN IntervalSet(@, dl, st) ELSE @, !.t[t].uV = TRUE, !.t[t].eTrem = on]
       [] a = "EFFECT_VIBRATO" ->
            [S EXCEPT !.t[t].vibD = SlideSet(@, dl, sl), !.t[t].vibS = SlideSet(@, st, sl),
                      !.t[t].vib = IF sl = 0 THEN IntervalSet(@, dl, st) ELSE @, !.t[t].uN = TRUE, !.t[t].eVib = on]
       [] OTHER -> Ret(S, INVATTR)

End(s) == Shr(s.end, s.vs)
GetEffect(S, t, a) ==
  LET T == S.t[t] IN
  CASE a = "EFFECT_VOLUME_SLIDE"  -> <<T.vol.steps, 0, 0>>
    [] a = "EFFECT_PORTAMENTO"    -> <<T.note.steps, 0, 0>>
    [] a = "EFFECT_PANNING_SLIDE" -> <<T.pan.steps, 0, 0>>
    [] a = "EFFECT_TREMOLO"       -> <<End(T.tremS), End(T.tremD), T.tremD.steps>>
    [] a = "EFFECT_VIBRATO"       -> <<End(T.vibS), End(T.vibD), T.vibD.steps>>
    [] OTHER                      -> <<>>

TrackWave(S, t, v) ==
  LET S1 == UnitSet(S, t, "WAVEFORM", v) IN
  IF S1.r < 0 THEN S1 ELSE TrackNote(IgnoreVolume([S1 EXCEPT !.t[t].wf = S1.u[t].wf], t), t)

TrackSet(S, t, a, v) ==
  CASE a = "MASTER_VOLUME" -> [S EXCEPT !.t[t].mvol = Clamp(v, 0, MaxVol), !.t[t].uV = TRUE]
    [] a = "VOLUME"        -> [S EXCEPT !.t[t].vol = SlideSetValue(@, Clamp(v, 0, MaxVol)), !.t[t].uV = TRUE]
    [] a = "PANNING"       -> [S EXCEPT !.t[t].pan = SlideSetValue(@, Clamp(v, -MaxVol, MaxVol)), !.t[t].uV = TRUE]
    [] a = "WAVEFORM"      -> TrackWave(S, t, v)
    [] a = "DUTY_CYCLE"    -> LET S1 == UnitSet(S, t, a, v) IN [S1 EXCEPT !.t[t].duty = S1.u[t].duty, !.t[t].uD = TRUE]
    [] a = "NOTE"          -> SetNote(S, t, v)
    [] a = "PITCH"         -> [S EXCEPT !.t[t].pitch = Clamp(v, -48 * U20, 48 * U20)]
    [] a = "SAMPLE_PITCH"  -> [S EXCEPT !.t[t].spitch = Clamp(v, -48 * U20, 48 * U20)]
    [] a = "ARPEGGIO_DIVIDER"   -> [S EXCEPT !.t[t].aD = v, !.t[t].aC = 0]
    [] a = "EFFECT_DIVIDER"     -> [S EXCEPT !.t[t].eD = v, !.t[t].eC = 0]
    [] a = "INSTRUMENT_DIVIDER" -> [S EXCEPT !.t[t].iD = v, !.t[t].iC = 0]
    [] a = "TRIANGLE_IGNORES_VOLUME" -> IgnoreVolume([S EXCEPT !.t[t].fT = v # 0], t)
    [] a \in {"EFFECT_VOLUME_SLIDE", "EFFECT_PANNING_SLIDE", "EFFECT_PORTAMENTO"} -> SetEffect(S, t, a, <<v, 0>>)
    [] OTHER               -> UnitSet(S, t, a, v)

TrackGet(S, t, a) ==
  LET T == S.t[t] IN
  CASE a = "MASTER_VOLUME" -> <<T.mvol>>
    [] a = "VOLUME"        -> <<End(T.vol)>>
    [] a = "PANNING"       -> <<End(T.pan)>>
    [] a = "NOTE"          -> <<T.cur>>
    [] a = "SAMPLE_PITCH"  -> <<T.spitch>>
    [] a = "ARPEGGIO_DIVIDER"   -> <<T.aD>>
    [] a = "EFFECT_DIVIDER"     -> <<T.eD>>
    [] a = "INSTRUMENT_DIVIDER" -> <<T.iD>>
    [] a = "TRIANGLE_IGNORES_VOLUME" -> <<Bool(T.fT)>>
    [] a \in {"EFFECT_VOLUME_SLIDE", "EFFECT_PANNING_SLIDE", "EFFECT_PORTAMENTO"} -> <<GetEffect(S, t, a)[1]>>
    [] OTHER               -> UnitGet(S, t, a)

TrackClear(S, t) ==
  LET T  == S.t[t]
      S1 == SetInstrument(UnitClear(S, t), t, Null)
      T1 == S1.t[t]
      S2 == [S1 EXCEPT !.t[t] = [Track0 EXCEPT !.fT = T1.fT, !.fIg = T1.fIg, !.fP = T1.fP, !.alloc = T.alloc,
                                               !.aD = 4, !.eD = 1, !.iD = 4]]
      S3 == TrackSet(TrackSet(S2, t, "VOLUME", MaxVol), t, "MASTER_VOLUME", T.mvol)
      w  == CASE T.wf = 0 -> "0" [] T.wf = 1 -> "SQUARE" [] T.wf = 2 -> "TRIANGLE" [] T.wf = 3 -> "NOISE"
              [] T.wf = 4 -> "SAWTOOTH" [] T.wf = 5 -> "SINE" [] OTHER -> "-"
      S4 == IF w = "-" THEN S3 ELSE TrackWave(S3, t, w)
  IN [SetNote(TrackSet(S4, t, "DUTY_CYCLE", T.duty), t, -2) EXCEPT !.u[t].mute = 1]

TrackReset(S, t) == TrackClear(TrackSet(UnitReset(S, t), t, "DUTY_CYCLE", 4), t)

NewTrack(S, t, wf, alloc) ==
  LET S1 == [S EXCEPT !.u = Put(@, t, Unit0), !.t = Put(@, t, [Track0 EXCEPT !.fT = TRUE, !.alloc = alloc]),
                      !.d = Put(@, TrkDiv(t), NewDivider(1, TRUE, <<>>, t))]
      S2 == Ret(UnitSet(S1, t, "WAVEFORM", wf), 0)
  IN Ret(TrackReset(Ret(TrackSet(S2, t, "WAVEFORM", wf), 0), t), 0)

TrackAttach(S, t, c) ==
  LET S1 == UnitAttach(S, t, c)
      S2 == Ret(AttachToContext(S1, TrkDiv(t), c, "eff"), 0)
  IN IF S1.r < 0 THEN S1
     ELSE TrackUpdate([S2 EXCEPT !.t[t].fP = S2.c[c].nch = 2, !.t[t].uV = TRUE, !.t[t].uN = TRUE], t)

TrackDetach(S, t) == [UnitDetach(DetachDivider(S, TrkDiv(t)), t) EXCEPT !.t[t].fP = FALSE]

SetTrackData(S, t, type, x) ==
  LET same == type = "SAMPLE" /\ S.u[t].wf = 7 /\ S.u[t].dat = x
      S1   == IF same THEN S ELSE SetData(S, t, x, type)
      S2   == IgnoreVolume([S1 EXCEPT !.t[t].wf = S1.u[t].wf], t)
      d    == S2.u[t].dat
  IN IF S1.r < 0 THEN S1
     ELSE TrackNote([S2 EXCEPT !.t[t].spitch = IF d = Null THEN 0 ELSE S2.x[d].sp], t)

SetArpeggio(S, t, notes) ==
  LET n == Min2(Len(notes), 8) IN
  [S EXCEPT !.t[t].aCnt = n, !.t[t].aOff = IF @ >= n THEN 0 ELSE @,
            !.t[t].arp = TLCEval([j \in 1..8 |-> IF j <= n THEN notes[j] ELSE S.t[t].arp[j]]),
            !.t[t].fA = n > 0, !.t[t].uN = TRUE]

------------------------------------------------------------------------------
(* tracks: one tick of the clock *)

EffectTick(S, t) ==
  LET T  == S.t[t]
      D1 == SlideStep(T.tremD)
      N1 == SlideStep(T.tremS)
      ts == T.tremD.steps # 0
      D2 == SlideStep(T.vibD)
      N2 == SlideStep(T.vibS)
      vs == T.vibD.steps # 0
  IN [S EXCEPT !.t[t] = [T EXCEPT
       !.note = IF T.ePort THEN SlideStep(@) ELSE @,
       !.vol  = IF T.eVol THEN SlideStep(@) ELSE @,
       !.pan  = IF T.ePan THEN SlideStep(@) ELSE @,
       !.tremD = IF T.eTrem /\ ts THEN D1 ELSE @, !.tremS = IF T.eTrem /\ ts THEN N1 ELSE @,
       !.trem  = IF ~T.eTrem THEN @ ELSE IntervalStep(IF ts THEN IntervalSet(@, SlideValue(D1), SlideValue(N1)) ELSE @),
       !.vibD  = IF T.eVib /\ vs THEN D2 ELSE @, !.vibS = IF T.eVib /\ vs THEN N2 ELSE @,
       !.vib   = IF ~T.eVib THEN @ ELSE IntervalStep(IF vs THEN IntervalSet(@, SlideValue(D2), SlideValue(N2)) ELSE @)]]

TrackTick(S, t) ==
  LET T  == S.t[t]
      S1 == [S EXCEPT !.t[t].uN = @ \/ T.ePort \/ T.eVib, !.t[t].uV = @ \/ T.eVol \/ T.ePan \/ T.eTrem]
      S2 == IF ~T.fA THEN S1
            ELSE IF T.aC # 0 THEN [S1 EXCEPT !.t[t].aC = @ - 1]
            ELSE [S1 EXCEPT !.t[t].aC = T.aD - 1, !.t[t].aDel = T.arp[T.aOff + 1],
                            !.t[t].aOff = IF @ + 1 >= T.aCnt THEN 0 ELSE @ + 1, !.t[t].uN = TRUE]
      S3 == IF ~T.fI THEN S2
            ELSE InsFlags(InsTick([S2 EXCEPT !.t[t].iC = IF @ = 0 THEN T.iD - 1 ELSE @ - 1], t, Bool(T.iC = 0)), t)
      S4 == TrackUpdate(S3, t)
      E  == S4.t[t]
      S5 == [S4 EXCEPT !.t[t].eC = IF @ = 0 THEN E.eD - 1 ELSE @ - 1]
  IN IF ~(E.ePort \/ E.eVol \/ E.ePan \/ E.eTrem \/ E.eVib) THEN S4
     ELSE IF E.eC = 0 THEN EffectTick(S5, t) ELSE S5

------------------------------------------------------------------------------
(* ticks of dividers and clocks *)

RECURSIVE TickDividers(_, _)
TickDividers(S, d) ==
  LET D  == S.d[d]
      due == D.cnt <= 0
      S1 == IF D.trk # Null THEN TrackTick(S, D.trk)
            ELSE IF ~D.cb THEN S
            ELSE LET X == DividerCallback([S EXCEPT !.info.div = D.n], d) IN [X EXCEPT !.d[d].n = Max2(1, X.info.div)]
      S2 == IF ~due THEN [S EXCEPT !.d[d].cnt = @ - 1] ELSE [S1 EXCEPT !.d[d].cnt = S1.d[d].n - 1]
  IN IF d = Null THEN S ELSE TickDividers(S2, NextDivider(S2, d))

IsMaster(S, k) == S.k[k].ctx # Null /\ k = Master(S.k[k].ctx)

TickClock(S, c, k) ==
  LET t  == S.c[c].cur
      S0 == [S EXCEPT !.info = [next |-> t, div |-> 0]]
      S1 == IF IsMaster(S, k) THEN LET B == TickDividers(S0, First(S0.c[c].beat)) IN TickDividers(B, First(B.c[c].eff))
            ELSE IF S.k[k].cb THEN ClockCallback(S0, k) ELSE S0
      S2 == IF S1.k[k].ctx # c THEN S1 ELSE TickDividers(S1, First(S1.k[k].dv))
      n  == S2.info.next
  IN IF S.k[k].nxt # t THEN S
     ELSE IF S2.k[k].ctx # c THEN S2
     ELSE IF TLt(t, n) THEN [S2 EXCEPT !.k[k].per = TSub(n, t), !.k[k].nxt = n]
     ELSE [S2 EXCEPT !.k[k].nxt = TAdd(t, S2.k[k].per)]

RECURSIVE TickList(_, _, _)
TickList(S, c, k) ==
  LET S1 == TickClock(S, c, k) IN
  IF k = Null THEN S ELSE IF S1.k[k].ctx # c THEN S1 ELSE TickList(S1, c, Successor(S1.c[c].ks, k))

(* tick everything that is due now, again as long as clocks were attached, detached or reset *)
RECURSIVE TickAll(_, _)
TickAll(S, c) ==
  LET S1 == TickList([S EXCEPT !.c[c].flag = FALSE], c, First(S.c[c].ks))
  IN IF S1.c[c].flag THEN TickAll(S1, c) ELSE S1

------------------------------------------------------------------------------
(* rendering *)

RunOne(S, u, end) == RunUnit(IF IsTrack(S, u) THEN TrackUpdate(S, u) ELSE S, u, end)
RunUnits(S, c, end) == FoldLeft(LAMBDA X, u: RunOne(X, u, end), S, S.c[c].us)

(* tick everything due now, then run the units up to the next tick *)
AdvanceClocks(S, c) ==
  LET S1    == TickAll(S, c)
      C     == S1.c[c]
      far   == TAdd(C.cur, AdvanceCap)
      next  == FoldLeft(LAMBDA a, k: TMin(a, S1.k[k].nxt), far, C.ks)
      t1    == TAdd(S.c[c].dlt, TSub(next, C.cur))
  IN [RunUnits([S1 EXCEPT !.c[c].cur = next], c, t1) EXCEPT !.c[c].dlt = t1]

RunClocks(S, c, end) == While(LAMBDA X: TLt(X.c[c].dlt, end), LAMBDA X: AdvanceClocks(X, c), S)

ContextRun(S, c, end) ==
  LET C == S.c[c]
      S1 == IF TLt(C.dlt, end) THEN [S EXCEPT !.c[c].cur = TAdd(@, TSub(end, C.dlt)), !.c[c].dlt = end] ELSE S
  IN IF C.ks # <<>> THEN RunClocks(S, c, end) ELSE RunUnits(S1, c, end)

ContextEnd(S, c, end) ==
  LET S0 == ContextRun(S, c, end)
      \* with units there are frames for all of the time, also if they were attached later
      S1 == IF S0.c[c].us = <<>> THEN S0 ELSE EndBuffers(S0, c, end)
      C  == S1.c[c]
      bt == TAdd(C.bt, end)
      S2 == FoldLeft(LAMBDA X, u: [X EXCEPT !.u[u].time = TSub(@, end)], S1, C.us)
  IN [S2 EXCEPT !.c[c].dlt = TSub(@, end), !.c[c].bt = IF TLt(<<C.cap, 0>>, bt) THEN <<C.cap, 0>> ELSE bt]

(* X.r counts the frames written *)
RECURSIVE Generate(_, _, _, _)
Generate(S, c, n, done) ==
  LET k  == Min2(n, 1024)
      S1 == Read(ContextEnd(S, c, <<k, 0>>), c, k)
      m  == S1.r
  IN IF m = 0 \/ m = n THEN Ret(S1, done + m) ELSE Generate(S1, c, n - m, done + m)

(* frames in blocks to a writer that fails at its call number `fail` (0 never) *)
RECURSIVE WriteAll(_, _, _)
WriteAll(S, c, fail) ==
  LET S1 == Read(S, c, 1024)
      n  == S1.r
      S2 == Event(S1, <<"w", n>>)
  IN IF n = 0 THEN [s |-> Ret(S1, 0), fail |-> fail, n |-> 0]
     ELSE IF fail = 1 THEN [s |-> Ret(S2, INVRET), fail |-> 1, n |-> n]
     ELSE LET R == WriteAll(S2, c, Max2(0, fail - 1)) IN [R EXCEPT !.n = @ + n]

RECURSIVE GenerateTo(_, _, _, _, _)
GenerateTo(S, c, end, fail, done) ==
  LET d == TSub(end, TSub(S.c[c].cur, S.c[c].dlt))
      R == WriteAll(ContextEnd(S, c, TMin(d, AdvanceCap)), c, fail)
  IN IF TLe(d, T0) THEN Ret(S, done)
     ELSE IF R.s.r < 0 THEN R.s
     ELSE GenerateTo(R.s, c, end, R.fail, done + R.n)

------------------------------------------------------------------------------
(* contexts *)

ContextReset(S, c) ==
  LET C  == S.c[c]
      S1 == [S EXCEPT !.c[c].cur = T0, !.c[c].dlt = T0]
      S2 == FoldLeft(LAMBDA X, u: IF IsTrack(X, u) THEN Ret(TrackReset(X, u), 0) ELSE UnitReset(X, u), S1, C.us)
      S3 == FoldLeft(LAMBDA X, k: ResetClock(X, k), S2, C.ks)
      S4 == ResetCounters(ResetCounters(S3, C.beat), C.eff)
  IN [S4 EXCEPT !.c[c].bt = T0, !.c[c].cap = 0, !.c[c].acc = Rep(C.nch, 0), !.c[c].pul = Rep(C.nch, <<>>)]

------------------------------------------------------------------------------
(* sample data: [n, nch, frames, sp, sus, users, copy] *)

Data0 == [n |-> 0, nch |-> 0, frames |-> <<>>, sp |-> 0, sus |-> <<0, 0>>, users |-> <<>>, copy |-> FALSE, alloc |-> 0]

(* every user starts the new frames from their beginning, one they do not fit falls silent *)
DataChanged(S, x) ==
  FoldLeft(LAMBDA X, u:
      LET type == IF X.u[u].wf = 6 THEN "WAVEFORM" ELSE "SAMPLE"
          X1   == Begun(Ret(TakeData(X, u, x, type), 0), u, type)
          ok   == X.u[u].wf \in {6, 7} /\ TakeData(X, u, x, type).r = 0
      IN IF ~ok THEN [Register(X, u, Null) EXCEPT !.u[u].wf = 0]
         ELSE IF IsTrack(X1, u) THEN TrackNote(X1, u) ELSE X1,
    [S EXCEPT !.r = 0], S.x[x].users)

DataGone(S, x) ==
  FoldLeft(LAMBDA X, u:
      LET X1 == IF X.u[u].wf = 6 THEN DropData(X, u, "WAVEFORM") ELSE DropData(X, u, "SAMPLE")
          X2 == IF X.u[u].wf \in {6, 7} /\ IsTrack(X1, u) THEN TrackNote(X1, u) ELSE X1
      IN Register(X2, u, Null),
    S, S.x[x].users)

SetFrames(S, x, copy, nch, n, frames) ==
  IF n < 2 THEN Ret(S, NUMFRM)
  ELSE IF nch \notin 1..8 THEN Ret(S, NUMCH)
  ELSE DataChanged([S EXCEPT !.x[x] = [@ EXCEPT !.n = n, !.nch = nch, !.frames = frames, !.copy = copy # 0]], x)

(* raw bytes: bits codes 1..6, byte order in the bits above *)
BitsOf == <<1, 2, 4, 8, 8, 16>>
RawFrames(bytes, code, big, count) ==
  LET bits == BitsOf[code]
      per  == 8 \div bits
      small(i) == LET b == bytes[(i \div per) + 1]
                      v == (b \div Pow2(8 - bits - (i % per) * bits)) % Pow2(bits)
                  IN (v * 32767) \div (Pow2(bits) - 1)
      sbyte(i) == LET b == bytes[i + 1]
                      v == IF b > 127 THEN b - 256 ELSE b
                  IN Max2(CDiv(v * 32767, 127), -32768)
      word(i)  == LET a == bytes[2 * i + 1]
                      b == bytes[2 * i + 2]
                      v == IF big THEN a * 256 + b ELSE b * 256 + a
                  IN IF v > 32767 THEN v - 65536 ELSE v
  IN TLCEval([j \in 1..count |-> CASE code = 4 -> sbyte(j - 1) [] code = 6 -> word(j - 1) [] OTHER -> small(j - 1)])

SetRaw(S, x, nch, params, bytes) ==
  LET code  == params % 65536
      big   == params \div 65536 = 1
      count == IF nch \in 1..8 /\ code \in 1..6 THEN ((Len(bytes) * 8) \div (BitsOf[code] * nch)) * nch ELSE 0
  IN IF nch \notin 1..8 THEN Ret(S, NUMCH)
     ELSE IF code \notin 1..6 THEN Ret(S, NUMBITS)
     ELSE IF count \div nch < 2 THEN Ret(S, NUMFRM)
     ELSE DataChanged([S EXCEPT !.x[x] = [@ EXCEPT !.n = count \div nch, !.nch = nch, !.copy = TRUE,
                                                   !.frames = RawFrames(bytes, code, big, count)]], x)


(* a WAVE file as sample data *)
LoadWave(S, x, f) ==
  LET F == S.f[f]
      H == ParseHeader(F)
  IN IF F.mode \in {"w", "pipe"} \/ ~H.ok THEN Ret(S, INVRET)
     ELSE IF H.n < 2 THEN Ret(S, NUMFRM)
     ELSE IF H.nch > 8 THEN Ret(S, NUMCH)
     ELSE IF TooLarge(H) THEN Ret(S, ALLOC)
     ELSE DataChanged([S EXCEPT !.x[x] = [@ EXCEPT !.n = H.n, !.nch = H.nch, !.copy = TRUE, !.frames = WaveFrames(F, H)]], x)

Normalize(S, x) ==
  LET max == FoldLeft(LAMBDA a, f: Max2(a, Abs(f)), 0, S.x[x].frames)
      S1  == IF S.x[x].copy THEN S ELSE DataChanged([S EXCEPT !.x[x].copy = TRUE], x)
      \* factor = (32767 << 16) / max, split in whole and fraction
      h   == 32767 \div max
      l   == ((32767 % max) * 65536) \div max
      sc(f) == LET a == f * (l \div 256)           \* f * l in two parts of 8 bits
                   b == f * (l % 256)
               IN f * h + (a + (b \div 256)) \div 256
  IN IF max = 0 THEN S1 ELSE [S1 EXCEPT !.x[x].frames = TLCEval([j \in 1..Len(@) |-> sc(@[j])])]

(* Fewer bits: frames are inverted and scaled to full range; up to 8 bits give positive frames only. Frames below the threshold  *)
(* (in parts of 64, 0 stands for 1/50) become silence; the others are dithered for up to 8 bits: moved up or down (chance, `odd`) *)
(* by the size of the lost bits times their own level. `L` divides the level; slope 1/2 (`half`) puts half of the level at 1.     *)
Dither(f, bits, L, half) ==
  LET delta == Pow2(16 - bits) - 1
  IN IF half THEN (delta * (32767 + Abs(f))) \div 65534 ELSE (delta * Abs(f)) \div (L * 32767)

Reduced(f, bits, th, L, half, odd) ==
  LET thr == IF th = 0 THEN 655 ELSE (th * 32767) \div 64
      d   == IF bits > 8 THEN 0 ELSE Dither(f, bits, L, half)
      v   == IF Abs(f) < thr THEN 0 ELSE Clamp(IF odd THEN f - d ELSE f + d, -32767, 32767)
      w   == Max2((v \div 2) - 16384, -32767) \div Pow2(15 - bits)
  IN IF bits <= 8 THEN CDiv(-w * 32767, Pow2(bits)) ELSE CDiv(-(v \div Pow2(16 - bits)) * 32767, Pow2(bits - 1))

Convert(S, x, bits, th, L, half, odd) ==
  DataChanged([S EXCEPT !.x[x] = [@ EXCEPT !.copy = TRUE, !.frames = TLCEval([j \in 1..Len(@) |-> Reduced(@[j], Min2(bits, 15), th, L, half, odd)])]], x)

------------------------------------------------------------------------------
(* instruments *)

SetSequence(S, i, slot, seq) ==
  LET S1 == [S EXCEPT !.i[i].q[slot + 1] = seq]
      S2 == FoldLeft(LAMBDA X, t: InsPhase(DefaultValues(X, t), t, 0), S1, S1.i[i].users)
  IN FoldLeft(LAMBDA X, t: TrackUpdate(UpdateAll(X, t), t), S2, S2.i[i].users)

PutSequence(S, i, slot, vals, seq) ==
  IF slot \notin 0..3 THEN Ret(S, INVATTR)
  ELSE IF vals = <<>> THEN SetSequence(S, i, slot, NoSeq)
  ELSE IF seq.env /\ ~EnvOk(seq) THEN Ret(S, INVVAL)
  ELSE SetSequence(S, i, slot, <<seq>>)

InstrumentGone(S, i) == FoldLeft(LAMBDA X, t: SetInstrument(X, t, Null), S, S.i[i].users)

------------------------------------------------------------------------------
(* disposal *)

Terminate(S, w) ==
  LET W == S.w[w] IN [S EXCEPT !.f[W.f] = Terminated(W, @), !.w[w].hdr = TRUE, !.w[w].term = TRUE]

Dispose(S, id) ==
  CASE id \in DOMAIN S.t ->
         LET S1 == Register(TrackDetach(LeaveInstrument(S, id), id), id, Null)
         IN [S1 EXCEPT !.t = Drop(@, id), !.u = Drop(@, id), !.d = Drop(@, TrkDiv(id))]
    [] id \in DOMAIN S.u -> LET S1 == UnitDetach(Register(S, id, Null), id) IN [S1 EXCEPT !.u = Drop(@, id)]
    [] id \in DOMAIN S.k -> LET S1 == DetachClock(S, id)
                                S2 == DetachAll(S1, S1.k[id].dv)
                            IN [S2 EXCEPT !.k = Drop(@, id)]
    [] id \in DOMAIN S.d -> LET S1 == DetachDivider(S, id) IN [S1 EXCEPT !.d = Drop(@, id)]
    [] id \in DOMAIN S.p -> [S EXCEPT !.p = Drop(@, id)]
    [] id \in DOMAIN S.c /\ Master(id) \notin DOMAIN S.k -> [S EXCEPT !.c = Drop(@, id)]   \* a buffer
    [] id \in DOMAIN S.c -> LET C  == S.c[id]
                                S1 == FoldLeft(UnitDetach, S, C.us)
                                S2 == FoldLeft(DetachClock, S1, C.ks)
                                S3 == DetachAll(DetachAll(S2, C.beat), C.eff)
                            IN [S3 EXCEPT !.c = Drop(@, id), !.k = Drop(@, Master(id)), !.any = IF @ = id THEN Null ELSE @]
    [] id \in DOMAIN S.i -> LET S1 == InstrumentGone(S, id) IN [S1 EXCEPT !.i = Drop(@, id)]
    [] id \in DOMAIN S.x -> LET S1 == DataGone(S, id) IN [S1 EXCEPT !.x = Drop(@, id)]
    [] id \in DOMAIN S.w -> LET S1 == IF S.w[id].term THEN S ELSE Terminate(S, id) IN [S1 EXCEPT !.w = Drop(@, id)]
    [] id \in DOMAIN S.q -> [S EXCEPT !.q = Drop(@, id)]
    [] id \in DOMAIN S.f -> [S EXCEPT !.f = Drop(@, id)]
    [] OTHER -> S

------------------------------------------------------------------------------
(* generic attributes of any object; clocks, dividers, instruments and files have none *)

Attrless(S, id) == id \notin DOMAIN S.u /\ id \notin DOMAIN S.x /\ id \notin DOMAIN S.c
NoAttr(S, id)   == Ret(S, IF Attrless(S, id) THEN INVSTATE ELSE INVATTR)

SetAttr(S, id, a, v) ==
  CASE id \in DOMAIN S.t -> TrackSet(S, id, a, v)
    [] id \in DOMAIN S.u -> UnitSet(S, id, a, v)
    [] id \in DOMAIN S.x -> IF a = "SAMPLE_PITCH" THEN [S EXCEPT !.x[id].sp = Clamp(v, -48 * U20, 48 * U20)] ELSE Ret(S, INVATTR)
    [] id \in DOMAIN S.c -> Ret(S, INVATTR)
    [] OTHER             -> Ret(S, INVSTATE)

GetAttr(S, id, a) ==
  CASE id \in DOMAIN S.t -> TrackGet(S, id, a)
    [] id \in DOMAIN S.u -> UnitGet(S, id, a)
    [] id \in DOMAIN S.x -> CASE a = "NUM_FRAMES" -> <<S.x[id].n>> [] a = "NUM_CHANNELS" -> <<S.x[id].nch>>
                              [] a = "SAMPLE_PITCH" -> <<S.x[id].sp>> [] OTHER -> <<>>
    [] id \in DOMAIN S.c -> CASE a = "NUM_CHANNELS" -> <<S.c[id].nch>> [] a = "SAMPLE_RATE" -> <<S.c[id].rate>> [] OTHER -> <<>>
    [] OTHER             -> <<>>

Values(S, id, names) == TLCEval([j \in 1..Len(names) |-> LET v == GetAttr(S, id, names[j]) IN IF v = <<>> THEN Missing ELSE v[1]])

ObsUnit == <<"WAVEFORM", "DUTY_CYCLE", "PERIOD", "PHASE", "PHASE_WRAP", "MUTE",
             "VOLUME_0", "VOLUME_1", "VOLUME_2", "VOLUME_3", "VOLUME_4", "VOLUME_5", "VOLUME_6", "VOLUME_7",
             "SAMPLE_PERIOD", "SAMPLE_REPEAT", "FLAG_RELEASE", "SAMPLE_IMMED_RELEASE", "NUM_PHASES">>
ObsTrack == <<"MASTER_VOLUME", "VOLUME", "PANNING", "NOTE", "SAMPLE_PITCH", "ARPEGGIO_DIVIDER", "EFFECT_DIVIDER",
              "INSTRUMENT_DIVIDER", "TRIANGLE_IGNORES_VOLUME", "EFFECT_VOLUME_SLIDE", "EFFECT_PANNING_SLIDE", "EFFECT_PORTAMENTO">>
Audible == <<"MUTE", "VOLUME_0", "VOLUME_1", "PERIOD", "DUTY_CYCLE", "SAMPLE_PERIOD", "NOTE">>

SetRef(S, id, a, o) ==
  CASE a = "INSTRUMENT" /\ id \in DOMAIN S.t -> SetInstrument(S, id, o)
    [] a \in {"WAVEFORM", "SAMPLE"} /\ id \in DOMAIN S.t -> SetTrackData(S, id, a, o)
    [] a \in {"WAVEFORM", "SAMPLE"} /\ id \in DOMAIN S.u -> SetData(S, id, o, a)
    [] OTHER -> NoAttr(S, id)

GetRef(S, id, a) ==
  CASE a = "INSTRUMENT" /\ id \in DOMAIN S.t -> Out(S, <<S.t[id].ins>>)
    [] a = "SAMPLE" /\ id \in DOMAIN S.u -> Out(S, <<IF S.u[id].wf \in {6, 7} THEN S.u[id].dat ELSE Null>>)
    [] OTHER -> Out(NoAttr(S, id), <<Null>>)

SetRng(S, id, a, r) ==
  LET none == r = <<>>
      v == IF none THEN <<0, -1>> ELSE <<r[1], r[2]>>
      w == IF none THEN <<0, 0>> ELSE IF r[1] = r[2] THEN <<0, 0>> ELSE <<r[1], r[2]>>
      o == FromEnd(w[1], S.x[id].n)
      e == FromEnd(w[2], S.x[id].n)
  IN CASE id \in DOMAIN S.x -> IF a = "SAMPLE_SUSTAIN_RANGE" THEN [S EXCEPT !.x[id].sus = <<Min2(o, e), Max2(o, e)>>] ELSE Ret(S, INVATTR)
       [] id \notin DOMAIN S.u \/ a \notin {"SAMPLE_RANGE", "SAMPLE_SUSTAIN_RANGE"} -> NoAttr(S, id)
       [] S.u[id].wf # 7 -> Ret(S, INVSTATE)
       [] a = "SAMPLE_RANGE" -> SetSustain(SetRange(S, id, v[1], v[2]), id, 0, 0)
       [] OTHER -> SetSustain(S, id, w[1], w[2])

GetRng(S, id, a) ==
  IF id \in DOMAIN S.x THEN (IF a = "SAMPLE_SUSTAIN_RANGE" THEN Out(S, S.x[id].sus) ELSE Ret(S, INVATTR))
  ELSE IF id \notin DOMAIN S.u \/ a \notin {"SAMPLE_RANGE", "SAMPLE_SUSTAIN_RANGE"} THEN NoAttr(S, id)
  ELSE IF a = "SAMPLE_RANGE" THEN Out(S, <<S.u[id].off, S.u[id].end>>)
  ELSE Out(S, <<S.u[id].sus0, S.u[id].sus1>>)

------------------------------------------------------------------------------
(* times and names *)

(* num / den seconds, rounded down; den is at most 1024 *)
TimeOfSeconds(rate, num, den) ==
  LET p == num * rate IN <<p \div den, ((p % den) * U20) \div den>>

CompareTimes(S, a, b) ==
  LET w == <<b[1] % 4096, b[2]>>  (* what of it fits into 12 bits and its fraction *)
  IN Out(S, <<Bool(TLt(a, b)), Bool(TLe(a, b)), Bool(a = b), Bool(TLt(b, a)), Bool(TLe(b, a))>> \o TAdd(a, b) \o TSub(a, b)
            \o w \o TAdd(a, w) \o TSub(a, w) \o <<Bool(TLt(a, w)), Bool(TLt(w, a))>>)

StatusNames ==
  <<"Allocation error", "Invalid argument", "Invalid value", "Invalid state", "Invalid number of channels",
    "Invalid number of frames", "Invalid number of bits", "Invalid return value", "File error", "File not readable",
    "File not writable", "File not seekable", "Other error">>

------------------------------------------------------------------------------
(* the operations *)

From(op, i) == SubSeq(op, i, Len(op))

DoContext(S, op) ==
  LET c == op[2] IN
  CASE op[1] = "ctx.new" -> [S EXCEPT !.c = Put(@, c, NewContext(op[3], op[4], op[5])),
                                      !.k = Put(@, Master(c), NewClock(MasterPeriod(Clamp(op[4], 16000, 96000)), FALSE, <<>>)), !.any = c]
    [] op[1] = "ctx.use"  -> [S EXCEPT !.any = c]
    [] op[1] = "ctx.rst"  -> ContextReset(S, c)
    [] op[1] = "ctx.per"  -> IF TLt(T0, <<op[3], op[4]>>) THEN [S EXCEPT !.k[Master(c)].per = <<op[3], op[4]>>] ELSE Ret(S, INVVAL)
    [] op[1] = "ctx.per?" -> Out(S, S.k[Master(c)].per)
    [] op[1] = "ctx.time" -> Out(S, S.c[c].cur)
    [] op[1] = "ctx.ker"  -> [S EXCEPT !.c[c].ker = IF op[3] = "null" THEN "harm" ELSE op[3]]
    [] op[1] = "ctx.ker?" -> Out(S, <<CASE S.c[c].ker = "tap" -> 1 [] S.c[c].ker = "slope" -> 2 [] S.c[c].ker = "sinc" -> 3 [] OTHER -> 4>>)
    [] op[1] = "ctx.get"  -> LET v == GetAttr(S, c, op[3]) IN IF v = <<>> THEN Out(Ret(S, INVATTR), <<0>>) ELSE Out(S, v)
    [] op[1] = "gen"      -> Generate(S, c, op[3], 0)
    [] op[1] = "read"     -> Read(S, c, op[3])
    [] op[1] = "run"      -> Ret(ContextEnd(S, c, TNorm(op[3], op[4])), 0)
    [] op[1] = "crun"     -> Ret(ContextRun(S, c, TNorm(op[3], op[4])), 0)
    [] op[1] = "size"     -> Ret(S, Available(S, c))
    [] op[1] = "gtt"      -> GenerateTo(S, c, TNorm(op[3], op[4]), op[5], 0)

DoClock(S, op) ==
  LET k == op[2] IN
  CASE op[1] = "clk.new" -> [S EXCEPT !.k = Put(@, k, NewClock(<<op[3], op[4]>>, op[5] # 0, op[7]))]
    [] op[1] = "clk.att" -> AttachClock(S, k, op[3], op[4])
    [] op[1] = "clk.det" -> DetachClock(S, k)
    [] op[1] = "clk.per" -> [S EXCEPT !.k[k].per = <<op[3], op[4]>>]
    [] op[1] = "clk.rst" -> ResetClock(S, k)
    [] op[1] = "div.new" -> [S EXCEPT !.d = Put(@, k, NewDivider(op[3], op[4] # 0, op[6], Null))]
    [] op[1] = "div.attk" -> AttachDivider(S, k, <<"k", op[3]>>)
    [] op[1] = "div.attc" -> AttachToContext(S, k, op[3], op[4])
    [] op[1] = "div.det" -> DetachDivider(S, k)
    [] op[1] = "div.rst" -> [S EXCEPT !.d[k].cnt = 0]

DoUnit(S, op) ==
  LET u == op[2] IN
  CASE op[1] = "unit.new" -> Ret(UnitSet([S EXCEPT !.u = Put(@, u, Unit0)], u, "WAVEFORM", op[3]), 0)
    [] op[1] = "unit.att" -> UnitAttach(S, u, op[3])
    [] op[1] = "unit.det" -> UnitDetach(S, u)
    [] op[1] = "trk.new"  -> NewTrack(S, u, op[3], op[4])
    [] op[1] = "trk.att"  -> TrackAttach(S, u, op[3])
    [] op[1] = "trk.det"  -> TrackDetach(S, u)
    [] op[1] = "trk.rst"  -> Ret(TrackReset(S, u), 0)
    [] op[1] = "trk.clr"  -> Ret(TrackClear(S, u), 0)
    [] op[1] = "scb?"     -> Out(S, <<IF S.u[u].cb THEN 1 ELSE 0>>)
    [] op[1] = "scb"      -> [S EXCEPT !.u[u].cb = op[3] >= 0, !.u[u].cbm = op[3], !.u[u].calls = 0, !.u[u].acts = op[4]]
    [] op[1] \in {"eff", "seff", "xeff"} ->
         IF ~IsTrack(S, u) THEN NoAttr(S, u)
         ELSE SetEffect(S, u, op[3], IF op[4] = 0 THEN <<>> ELSE SubSeq(op, 5, Min2(Len(op), IF op[1] = "seff" THEN 6 ELSE 7)))
    [] op[1] \in {"eff?", "seff?", "xeff?"} ->
         LET v == IF IsTrack(S, u) THEN GetEffect(S, u, op[3]) ELSE <<>> IN
         IF v = <<>> THEN NoAttr(S, u) ELSE Out(S, TLCEval([j \in 1..op[4] |-> IF j <= 3 THEN v[j] ELSE 0]))
    [] op[1] \in {"arp", "sarp"}   -> IF ~IsTrack(S, u) THEN NoAttr(S, u) ELSE SetArpeggio(S, u, IF op[3] <= 0 THEN <<>> ELSE From(op, 4))
    [] op[1] \in {"arp?", "sarp?"} -> IF ~IsTrack(S, u) THEN NoAttr(S, u)
                                     ELSE Out(S, <<S.t[u].aCnt>> \o SubSeq(S.t[u].arp, 1, S.t[u].aCnt))
    [] op[1] = "obs"      -> Out(S, Values(S, u, IF IsTrack(S, u) THEN ObsUnit \o ObsTrack ELSE ObsUnit))
    [] op[1] = "tob"      -> Out(S, Values(S, u, Audible))

(* files, writers and readers *)
DoFile(S, op) ==
  LET w == op[2] IN
  CASE op[1] = "fil.new" -> [S EXCEPT !.f = Put(@, w, [b |-> From(op, 4), pos |-> 0, mode |-> op[3]])]
    [] op[1] = "fil.add" -> LET more == From(op, 4) IN [S EXCEPT !.f[w].b = TLCEval(@ \o [j \in 1..op[3] * Len(more) |-> more[((j - 1) % Len(more)) + 1]])]
    [] op[1] = "fil.pos" -> [S EXCEPT !.f[w].pos = IF op[3] < 0 THEN Len(S.f[w].b) ELSE op[3]]
    [] op[1] = "fil?"    -> Out(S, S.f[w].b)
    [] op[1] = "wrt.new" -> LET F == S.f[op[3]] IN
                            IF F.mode = "pipe" THEN Ret(S, NOSEEK) ELSE IF F.mode = "r" THEN Ret(S, NOWRITE)
                            ELSE IF op[6] \notin {0, 8, 16} THEN Ret(S, INVVAL)
                            ELSE [S EXCEPT !.w = Put(@, w, NewWriter(op[3], F.pos, op[4], op[5], op[6]))]
    [] op[1] = "wrt.add" -> LET W == S.w[w] IN [S EXCEPT !.f[W.f] = AppendTo(W, @, From(op, 3)), !.w[w].hdr = TRUE, !.w[w].term = FALSE,
                                                         !.w[w].data = @ + (Len(op) - 2) * (W.bits \div 8)]
    [] op[1] = "wrt.end" -> Terminate(S, w)
    [] op[1] = "wav.put" -> LET F == S.f[w]
                                X == S.x[op[3]]
                                W == NewWriter(w, F.pos, X.nch, op[4], op[5])
                                F1 == AppendTo(W, F, X.frames)
                            IN IF F.mode \in {"pipe", "r"} \/ op[5] \notin {0, 8, 16} THEN Ret(S, -1)
                               ELSE [S EXCEPT !.f[w] = Terminated([W EXCEPT !.hdr = TRUE, !.data = Len(X.frames) * (W.bits \div 8)], F1)]
    [] op[1] = "rdr.new" -> LET F == S.f[op[3]] IN
                            IF F.mode = "pipe" THEN Ret(S, NOSEEK) ELSE IF F.mode = "w" THEN Ret(S, NOREAD)
                            ELSE [S EXCEPT !.q = Put(@, w, [f |-> op[3], h |-> None])]
    [] op[1] = "rdr.hdr" -> LET R == S.q[w]
                                H == IF R.h.ok THEN R.h ELSE ParseHeader(S.f[R.f])
                            IN IF H.ok THEN Out([S EXCEPT !.q[w].h = H, !.f[R.f].pos = IF R.h.ok THEN @ ELSE H.at], <<H.nch, H.rate, H.n>>) ELSE Ret(S, -1)
    [] op[1] = "rdr.read" -> LET R == S.q[w] IN
                             IF ~R.h.ok THEN S ELSE Out(S, WaveFrames(S.f[R.f], R.h))

Pairs(op) == [st |-> TLCEval([j \in 1..op[6] |-> op[5 + 2 * j]]), v |-> TLCEval([j \in 1..op[6] |-> op[6 + 2 * j]])]

DoInstrument(S, op) ==
  LET i == op[2] IN
  CASE op[1] = "ins.new"  -> [S EXCEPT !.i = Put(@, i, [q |-> Rep(4, NoSeq), users |-> <<>>])]
    [] op[1] = "ins.copy" -> [S EXCEPT !.i = Put(@, i, [q |-> S.i[op[3]].q, users |-> <<>>])]
    [] op[1] = "ins.det"  -> InstrumentGone(S, i)
    [] op[1] = "ins.seq"  -> LET v == From(op, 7) IN PutSequence(S, i, op[3], v, SeqMake(v, op[4], op[5]))
    [] op[1] = "ins.env"  -> LET p == Pairs(op) IN PutSequence(S, i, op[3], p.v, EnvMake(p.st, p.v, op[4], op[5]))
    [] op[1] = "ins.adsr" -> LET v == <<MaxVol, op[5], op[5], 0>>
                             IN PutSequence(S, i, 0, v, EnvMake(<<op[3], op[4], 240, op[6]>>, v, 2, 1))
    [] op[1] = "ins.has"  -> Ret(S, IF op[3] \in 0..3 THEN Bool(S.i[i].q[op[3] + 1] # NoSeq) ELSE 0)

DoData(S, op) ==
  LET x == op[2] IN
  CASE op[1] = "dat.new"  -> [S EXCEPT !.x = Put(@, x, Data0)]
    [] op[1] = "dat.frm"  -> SetFrames(S, x, op[3], op[4], op[5], SubSeq(op, 6, 5 + op[4] * op[5]))
    [] op[1] = "dat.pat"  -> SetFrames(S, x, op[3], op[4], op[5], TLCEval([i \in 1..(op[4] * op[5]) |-> ((op[7] + (i - 1) * op[6]) % 60001) - 30000]))
    [] op[1] = "dat.own"  -> Ret(S, 1)
    [] op[1] = "dat.rel"  -> S
    [] op[1] \in {"dat.raw", "dat.ldr"} -> SetRaw(S, x, op[3], op[4], From(op, 5))
    [] op[1] = "dat.wav"  -> LoadWave(S, x, op[3])
    [] op[1] = "dat.nrm"  -> Normalize(S, x)
    [] op[1] = "dat.cnv"  -> IF Len(op) = 4 THEN Convert(S, x, op[3], op[4], 64, FALSE, FALSE)
                             ELSE Convert(S, x, op[3], op[4], IF op[5] = 0 THEN 64 ELSE op[5], op[6] = 1, op[7] = 1)
    [] op[1] = "dat.det"  -> DataGone(S, x)
    [] op[1] = "dat.copy" -> [S EXCEPT !.x = Put(@, x, [S.x[op[3]] EXCEPT !.users = <<>>, !.copy = S.x[op[3]].n > 0])]
    [] op[1] = "dat?"     -> Out(S, <<S.x[x].n, S.x[x].nch, S.x[x].sp>> \o S.x[x].frames)

ContextOps == {"ctx.new", "ctx.use", "ctx.rst", "ctx.per", "ctx.per?", "ctx.time", "ctx.ker", "ctx.ker?", "ctx.get", "gen", "read", "run", "crun", "size", "gtt"}
ClockOps   == {"clk.new", "clk.att", "clk.det", "clk.per", "clk.rst", "div.new", "div.attk", "div.attc", "div.det", "div.rst"}
UnitOps    == {"unit.new", "unit.att", "unit.det", "trk.new", "trk.att", "trk.det", "trk.rst", "trk.clr", "scb", "scb?", "eff", "eff?", "seff", "seff?",
               "xeff", "xeff?", "arp", "arp?", "sarp", "sarp?", "obs", "tob"}
InsOps     == {"ins.new", "ins.copy", "ins.det", "ins.seq", "ins.env", "ins.adsr", "ins.has"}
DataOps    == {"dat.new", "dat.frm", "dat.pat", "dat.own", "dat.rel", "dat.raw", "dat.ldr", "dat.wav", "dat.nrm", "dat.cnv", "dat.det", "dat.copy", "dat?"}
FileOps    == {"fil.new", "fil.add", "fil.pos", "fil?", "wrt.new", "wrt.add", "wrt.end", "wav.put", "rdr.new", "rdr.hdr", "rdr.read"}

------------------------------------------------------------------------------
(* the parts contexts and tracks are made of, used directly                    *)

SlideOps  == {"sld.new", "sld.set", "sld.val", "sld.steps", "sld.halt", "sld.step",
              "itv.new", "itv.set", "itv.delta", "itv.steps", "itv.step", "itv.get"}
SeqOps    == {"seq.new", "env.new", "seq.copy", "sst.new", "sst.seq", "sst.ph", "sst.val", "sst.step"}
BufferOps == {"buf.new", "buf.ker", "buf.add", "buf.frm", "buf.end", "buf.shift", "buf.size", "buf.clr", "buf.read"}

(* n steps and the value after each *)
Stepped(S, id, step(_), value(_), n) ==
  LET R == FoldLeft(LAMBDA a, j: LET s == step(a.s) IN [s |-> s, o |-> Append(a.o, value(s))], [s |-> S.p[id], o |-> <<>>], Rep(n, 0))
  IN Out([S EXCEPT !.p[id] = R.s], R.o)

DoSlide(S, op) ==
  LET id == op[2] IN
  CASE op[1] = "sld.new"   -> [S EXCEPT !.p = Put(@, id, Slide0(FracBits(op[3])))]
    [] op[1] = "sld.set"   -> [S EXCEPT !.p[id] = SlideSet(@, op[3], op[4])]
    [] op[1] = "sld.val"   -> [S EXCEPT !.p[id] = SlideSetValue(@, op[3])]
    [] op[1] = "sld.steps" -> [S EXCEPT !.p[id] = SlideSetSteps(@, op[3])]
    [] op[1] = "sld.halt"  -> LET s == SlideHalt(S.p[id], op[3] # 0) IN Out([S EXCEPT !.p[id] = s], <<SlideValue(s)>>)
    [] op[1] = "sld.step"  -> Stepped(S, id, SlideStep, SlideValue, op[3])
    [] op[1] = "itv.new"   -> [S EXCEPT !.p = Put(@, id, Interval0(IntervalFracBits(op[3])))]
    [] op[1] = "itv.set"   -> [S EXCEPT !.p[id] = IntervalSet(@, op[3], op[4])]
    [] op[1] = "itv.delta" -> [S EXCEPT !.p[id] = IntervalSetDelta(@, op[3])]
    [] op[1] = "itv.steps" -> [S EXCEPT !.p[id] = IntervalSetSteps(@, op[3])]
    [] op[1] = "itv.step"  -> Stepped(S, id, IntervalStep, IntervalValue, op[3])
    [] op[1] = "itv.get"   -> Out(S, <<IntervalValue(S.p[id])>>)

(* sequences by themselves: S.p holds <<sequence>> or [s (state), q (name of its sequence)] *)
SeqCode(res) == CASE res = "none" -> 0 [] res = "step" -> 1 [] res = "rep" -> 2 [] res = "fin" -> 4

DoSequence(S, op) ==
  LET id   == op[2]
      P    == S.p[id]
      q    == S.p[P.q][1]
      v    == From(op, 6)
      n    == op[5]
      st   == TLCEval([j \in 1..n |-> v[2 * j - 1]])
      w    == TLCEval([j \in 1..n |-> v[2 * j]])
      put(s, r) == Ret(Out([S EXCEPT !.p[id].s = s], <<s.val>>), r)
      steps == FoldLeft(LAMBDA a, j: LET R == SeqStep(q, a.s, op[3]) IN [s |-> R.s, o |-> a.o \o <<SeqCode(R.res), R.s.val>>, r |-> SeqCode(R.res)],
                        [s |-> P.s, o |-> <<>>, r |-> 0], Rep(op[4], 0))
  IN CASE op[1] = "seq.new"  -> [S EXCEPT !.p = Put(@, id, <<SeqMake(v, op[3], op[4])>>)]
       [] op[1] = "env.new"  -> LET e == EnvMake(st, w, op[3], op[4]) IN IF ~EnvOk(e) THEN Ret(S, INVVAL) ELSE [S EXCEPT !.p = Put(@, id, <<e>>)]
       [] op[1] = "seq.copy" -> [S EXCEPT !.p = Put(@, id, S.p[op[3]])]
       [] op[1] = "sst.new"  -> [S EXCEPT !.p = Put(@, id, [s |-> SeqState0, q |-> Null])]
       [] op[1] = "sst.seq"  -> IF op[3] = P.q THEN put(P.s, 0)
                                ELSE IF op[3] = Null THEN Out([S EXCEPT !.p[id].q = Null], <<P.s.val>>)
                                ELSE LET R == SeqPhase(S.p[op[3]][1], P.s, P.s.ph)
                                     IN Ret(Out([S EXCEPT !.p[id] = [s |-> R.s, q |-> op[3]]], <<R.s.val>>), SeqCode(R.res))
       [] op[1] = "sst.ph"   -> IF P.q = Null THEN Ret(Out(S, <<P.s.val>>), INVSTATE)
                                ELSE IF op[3] \notin 0..2 THEN Ret(Out(S, <<P.s.val>>), INVATTR)
                                ELSE LET R == SeqPhase(q, P.s, op[3]) IN put(R.s, SeqCode(R.res))
       [] op[1] = "sst.val"  -> put(IF P.q = Null THEN [P.s EXCEPT !.val = op[3]] ELSE SeqSetValue(q, P.s, op[3]), 0)
       [] op[1] = "sst.step" -> IF P.q = Null THEN Ret(Out(S, FoldLeft(LAMBDA a, j: a \o <<INVSTATE, P.s.val>>, <<>>, Rep(op[4], 0))), IF op[4] = 0 THEN 0 ELSE INVSTATE)
                                ELSE Ret(Out([S EXCEPT !.p[id].s = steps.s], steps.o), steps.r)

(* a buffer is a context of one channel without anything else *)
DoBuffer(S, op) ==
  LET b == op[2]
      B == S.c[b]
      t == TAdd(B.bt, TNorm(op[3], op[4]))
      add(ker, v) == [S EXCEPT !.c[b].pul[1] = Append(@, <<t[1], t[2] \div 32768, v, ker>>)]
  IN CASE op[1] = "buf.new"   -> [S EXCEPT !.c = Put(@, b, NewContext(1, 44100, 0))]
       [] op[1] = "buf.ker"   -> [S EXCEPT !.c[b].ker = op[3]]
       [] op[1] = "buf.add"   -> add(B.ker, op[5])
       [] op[1] = "buf.frm"   -> add("frame", op[5])
       [] op[1] = "buf.end"   -> EndBuffers(S, b, TNorm(op[3], op[4]))
       [] op[1] = "buf.shift" -> [S EXCEPT !.c[b].bt = TMin(t, <<B.cap, 0>>)]
       [] op[1] = "buf.size"  -> Ret(S, Available(S, b))
       [] op[1] = "buf.clr"   -> [S EXCEPT !.c[b].bt = T0, !.c[b].cap = 0, !.c[b].acc = <<0>>, !.c[b].pul = <<<<>>>>]
       [] op[1] = "buf.read"  -> Read(S, b, op[3])

Do(S, op) ==
  CASE op[1] \in UnitOps    -> DoUnit(S, op)
    [] op[1] \in ContextOps -> DoContext(S, op)
    [] op[1] \in ClockOps   -> DoClock(S, op)
    [] op[1] \in InsOps     -> DoInstrument(S, op)
    [] op[1] \in DataOps    -> DoData(S, op)
    [] op[1] \in FileOps    -> DoFile(S, op)
    [] op[1] \in {"set", "sset"} -> SetAttr(S, op[2], op[3], op[4])
    [] op[1] \in {"get", "sget"} -> LET v == GetAttr(S, op[2], op[3]) IN IF v = <<>> THEN NoAttr(S, op[2]) ELSE Out(S, v)
    [] op[1] \in {"ref", "sref"}   -> SetRef(S, op[2], op[3], op[4])
    [] op[1] \in {"ref?", "sref?"} -> GetRef(S, op[2], op[3])
    [] op[1] \in {"rng", "rng0", "srng", "srng0"} -> SetRng(S, op[2], op[3], From(op, 4))
    [] op[1] \in {"rng?", "srng?"} -> GetRng(S, op[2], op[3])
    [] op[1] \in SlideOps   -> DoSlide(S, op)
    [] op[1] \in SeqOps     -> DoSequence(S, op)
    [] op[1] \in BufferOps  -> DoBuffer(S, op)
    [] op[1] = "disp"       -> Dispose(S, op[2])
    [] op[1] = "setnext"    -> [S EXCEPT !.info.next = TAdd(@, <<op[2], op[3]>>)]
    [] op[1] = "setdiv"     -> [S EXCEPT !.info.div = op[2]]
    [] op[1] = "setres"     -> [S EXCEPT !.cbr = op[2]]
    [] op[1] = "tone"       -> Out(S, <<ToneCycle(op[2], Clamp(op[3], 16000, 96000), 1)>>)
    [] op[1] = "log2"       -> Out(S, <<Log2Period(op[2])>>)
    [] op[1] = "tmk"        -> LET t == TNorm(op[2], op[3]) IN Out(S, t \o t \o <<t[1] % 4096, t[2]>>)
    [] op[1] = "tsec"       -> Out(S, TimeOfSeconds(S.c[op[2]].rate, op[3], op[4]))
    [] op[1] = "tcmp"       -> CompareTimes(S, <<op[2], op[3]>>, <<op[4], op[5]>>)
    [] op[1] = "name"       -> Out(S, <<"Unknown status">>)
    [] op[1] = "name.all"   -> Out(S, StatusNames)
    [] op[1] = "nul"        -> Out(S, Rep(4, INVSTATE))
    [] op[1] = "obj.init"   -> Out(S, <<IF op[3] = 0 THEN 0 ELSE ALLOC, ALLOC, ALLOC, ALLOC>>)
    [] op[1] = "fail"       -> S
    [] op[1] = "drop"       -> S
    [] op[1] = "bal"        -> Ret(S, 0)

(* Operations that need memory (of operations that would succeed with it).    *)
(* When memory is refused they report some error and change nothing.           *)
NeedsMemory(S, op) ==
  CASE op[1] \in {"ctx.new", "ins.seq", "ins.env", "ins.adsr", "dat.raw", "dat.ldr", "dat.wav", "seq.new", "env.new", "seq.copy"} -> TRUE
    [] op[1] = "clk.new" -> op[6] = 1
    [] op[1] = "div.new" -> op[5] = 1
    [] op[1] = "trk.new" -> op[4] = 1
    [] op[1] \in {"ins.new", "dat.new"} -> op[3] = 1
    [] op[1] \in {"dat.frm", "dat.pat"} -> op[3] = 1
    [] op[1] \in {"dat.nrm", "dat.cnv"} -> ~S.x[op[2]].copy
    [] op[1] = "ins.copy" -> \E j \in 1..4 : S.i[op[3]].q[j] # <<>>
    [] op[1] = "dat.copy" -> S.x[op[3]].n > 0
    [] OTHER -> FALSE
Failed(S) == [S EXCEPT !.r = -1, !.out = <<>>, !.ev = <<>>]

(* a step of the library seen from outside *)
Step(S, op) == Do([S EXCEPT !.r = 0, !.out = <<>>, !.ev = <<>>], op)
=============================================================================
