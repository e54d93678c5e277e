------------------------------- MODULE BKProps -------------------------------
(* The properties in declarative form, as predicates on states and on steps of *)
(* the reference model. They do not repeat how the model computes: schedules   *)
(* are arithmetic progressions, rendering is compared with rendering done      *)
(* another way, ranges and lists are compared with what they have to contain.  *)
(* Explore.tla checks them on every behaviour of bounded length, Trace.tla on  *)
(* every state of the recorded traces.                                         *)
EXTENDS BlipKit

Ids(f)    == DOMAIN f
Rng(s)    == {s[i] : i \in 1..Len(s)}
NoDup(s)  == Cardinality(Rng(s)) = Len(s)
Frames(S, op)   == Step(S, op).out
Play(S, ops)    == FoldLeft(LAMBDA a, op: LET T == Step(a.s, op) IN [s |-> T, out |-> a.out \o T.out, ev |-> a.ev \o T.ev],
                            [s |-> S, out |-> <<>>, ev |-> <<>>], ops)
Same(A, B)      == A.out = B.out /\ A.ev = B.ev
Contexts(S)     == {c \in Ids(S.c) : Master(c) \in Ids(S.k)}
Sounding(S)     == {c \in Contexts(S) : S.c[c].us # <<>>}
(* states without what the last operation left for its caller *)
Bare(S)         == [S EXCEPT !.r = 0, !.out = <<>>, !.ev = <<>>, !.info = [next |-> T0, div |-> 0], !.cbr = 0]

------------------------------------------------------------------------------
(* C05, C06, C18, C20: who is attached to what, in both directions *)

Membership(S) ==
  /\ \A c \in Ids(S.c) : LET C == S.c[c] IN
       /\ NoDup(C.us) /\ Rng(C.us) = {u \in Ids(S.u) : S.u[u].ctx = c}
       /\ NoDup(C.ks) /\ Rng(C.ks) = {k \in Ids(S.k) : S.k[k].ctx = c}
       /\ NoDup(C.eff) /\ Rng(C.eff) = {d \in Ids(S.d) : S.d[d].own = <<"e", c>>}
       /\ NoDup(C.beat) /\ Rng(C.beat) = {d \in Ids(S.d) : S.d[d].own = <<"b", c>>}
  /\ \A k \in Ids(S.k) : NoDup(S.k[k].dv) /\ Rng(S.k[k].dv) = {d \in Ids(S.d) : S.d[d].own = <<"k", k>>}

Users(S) ==
  /\ \A x \in Ids(S.x) : NoDup(S.x[x].users) /\ Rng(S.x[x].users) = {u \in Ids(S.u) : S.u[u].dat = x}
  /\ \A i \in Ids(S.i) : NoDup(S.i[i].users) /\ Rng(S.i[i].users) = {t \in Ids(S.t) : S.t[t].ins = i}

(* nothing refers to what is gone *)
Dangling(S) ==
  \/ \E u \in Ids(S.u) : S.u[u].ctx \notin Ids(S.c) \cup {Null} \/ S.u[u].dat \notin Ids(S.x) \cup {Null}
  \/ \E t \in Ids(S.t) : S.t[t].ins \notin Ids(S.i) \cup {Null} \/ t \notin Ids(S.u) \/ TrkDiv(t) \notin Ids(S.d)
  \/ \E k \in Ids(S.k) : S.k[k].ctx \notin Ids(S.c) \cup {Null}
  \/ \E d \in Ids(S.d) : LET o == S.d[d].own IN
       \/ o[1] = "k" /\ o[2] \notin Ids(S.k)
       \/ o[1] \in {"e", "b"} /\ o[2] \notin Ids(S.c)
       \/ S.d[d].trk \notin Ids(S.t) \cup {Null}
  \/ S.any \notin Ids(S.c) \cup {Null}

(* a refused call changes nothing *)
Steady == {"clk.att", "div.attk", "div.attc", "unit.att", "trk.att", "set", "sset", "ctx.per", "dat.frm", "dat.pat", "dat.raw", "dat.ldr", "dat.wav",
           "ins.seq", "ins.env", "rng", "rng0", "srng", "srng0", "eff", "seff", "xeff", "env.new"}
Refused(S, op, T) == T.r < 0 /\ op[1] \in Steady => Bare(T) = Bare(S)

------------------------------------------------------------------------------
(* C01, C03, C04: rendering without actions in callbacks ticks an exact schedule *)

Plain(S) == /\ \A k \in Ids(S.k) : S.k[k].acts = <<>>
            /\ \A d \in Ids(S.d) : S.d[d].acts = <<>>
            /\ \A u \in Ids(S.u) : ~S.u[u].cb
(* callbacks may be called, but do nothing *)
Quiet(S) == /\ \A k \in Ids(S.k) : S.k[k].acts = <<>>
            /\ \A d \in Ids(S.d) : S.d[d].acts = <<>>
            /\ \A u \in Ids(S.u) : S.u[u].acts = <<>>
Rendering == {"gen", "run", "crun", "gtt"}

(* the ticks of a clock in front of `end`: first, first + per, ... *)
Progression(first, per, end) ==
  LET R == While(LAMBDA X: TLt(X.t, end), LAMBDA X: [t |-> TAdd(X.t, per), l |-> Append(X.l, X.t)], [t |-> first, l |-> <<>>])
  IN [ticks |-> R.l, next |-> R.t]

(* events of dividers at tick number j (from 0) of the clock they are attached to *)
Fires(D, j) == LET c == Max2(D.cnt, 0) IN j >= c /\ (j - c) % D.n = 0
Firings(S, dv, j, t) ==
  FoldLeft(LAMBDA a, d: LET D == S.d[d] IN IF D.trk = Null /\ D.cb /\ Fires(D, j) THEN Append(a, <<"d", d, t[1], t[2], D.n, 1>>) ELSE a, <<>>, dv)

Schedule(S, c, end) ==
  LET ks == S.c[c].ks
      P  == TLCEval([p \in 1..Len(ks) |-> Progression(S.k[ks[p]].nxt, S.k[ks[p]].per, end).ticks])
      at(p, j) == P[p][j]
      all == UNION {{<<p, j>> : j \in 1..Len(P[p])} : p \in 1..Len(ks)}
      seq == SetToSortSeq(all, LAMBDA a, b: TLt(at(a[1], a[2]), at(b[1], b[2])) \/ (at(a[1], a[2]) = at(b[1], b[2]) /\ a[1] < b[1]))
      one(p, j) == LET k == ks[p]
                       t == at(p, j)
                       dv == IF k = Master(c) THEN S.c[c].beat \o S.c[c].eff ELSE <<>>
                   IN (IF S.k[k].cb /\ k # Master(c) THEN <<<<"k", k, t[1], t[2], 1>>>> ELSE <<>>)
                      \o Firings(S, dv, j - 1, t) \o Firings(S, S.k[k].dv, j - 1, t)
  IN FoldLeft(LAMBDA a, e: a \o one(e[1], e[2]), <<>>, seq)

TickEvents(ev) == SelectSeq(ev, LAMBDA e: e[1] \in {"k", "d"})

OnSchedule(S, op, T) ==
  op[1] \in Rendering /\ Plain(S) /\ op[2] \in Contexts(S) /\ S.any = op[2] /\ T.r >= 0 =>
    LET c == op[2] IN
    /\ TickEvents(T.ev) = Schedule(S, c, T.c[c].cur)
    /\ \A k \in Rng(S.c[c].ks) : T.k[k].nxt = Progression(S.k[k].nxt, S.k[k].per, T.c[c].cur).next
    \* nothing else moves a clock
    /\ \A k \in Ids(S.k) \ Rng(S.c[c].ks) : T.k[k] = S.k[k]

NoneMissed(S) == \A c \in Contexts(S) : \A i \in 1..Len(S.c[c].ks) : TLe(S.c[c].cur, S.k[S.c[c].ks[i]].nxt)

------------------------------------------------------------------------------
(* C02, C07, C27: rendering in portions, running and reading, rendering to a time *)

Splits == {<<5, 2>>, <<4, 1>>, <<7, 3>>}
SplitSame(S) ==
  \A c \in Sounding(S) : \A p \in Splits :
    LET A == Play(S, <<<<"gen", c, p[1]>>, <<"gen", c, 3>>>>)
        B == Play(S, <<<<"gen", c, p[2]>>, <<"gen", c, p[1] - p[2]>>, <<"gen", c, 3>>>>)
    IN Same(A, B)

Settled(S, c) == Available(S, c) = 0
RunAndRead(S) ==
  \A c \in Sounding(S) :
    LET A == Play(S, <<<<"gen", c, 6>>>>)
        B == Play(S, <<<<"run", c, 6, 0>>, <<"read", c, 2>>, <<"read", c, 9>>>>)
        C == Play(S, <<<<"run", c, 2, 500000>>, <<"run", c, 3, 548576>>, <<"read", c, 1>>, <<"read", c, 5>>>>)
        \* running ahead to some times in between changes nothing
        D == Play(S, <<<<"crun", c, 1, 700000>>, <<"crun", c, 4, 0>>, <<"crun", c, 2, 0>>, <<"gen", c, 6>>>>)
    IN Settled(S, c) => Same(A, B) /\ (S.c[c].bt[2] = 0 => Same(A, C)) /\ Same(A, D)

Accounting(S, op, T) ==
  LET c == op[2] IN
  op[1] \in {"gen", "read", "run", "crun", "size"} /\ c \in Contexts(S) =>
    CASE op[1] = "gen"  -> /\ T.r \in 0..op[3] /\ Len(T.out) = T.r * S.c[c].nch
                           /\ S.c[c].us # <<>> /\ T.c[c].us # <<>> => T.r = op[3]
                           /\ S.c[c].us = <<>> /\ T.c[c].us = <<>> => T.r <= Max2(S.c[c].cap, Available(S, c))
      [] op[1] = "read" -> /\ T.r = Max2(0, Min2(op[3], Available(S, c))) /\ Len(T.out) = T.r * S.c[c].nch
                           /\ Available(T, c) = Available(S, c) - T.r
      [] op[1] = "run"  -> /\ T.out = <<>>
                           /\ S.c[c].us # <<>> /\ T.c[c].us # <<>> => Available(T, c) = TAdd(S.c[c].bt, TNorm(op[3], op[4]))[1]
      [] op[1] = "crun" -> T.out = <<>> /\ Available(T, c) = Available(S, c)
      [] op[1] = "size" -> T.r = Available(S, c) /\ T.out = <<>>

(* a time in whole frames ahead: the same as generating these frames *)
ToTime(S) ==
  \A c \in Sounding(S) : \A n \in {3, 7} :
    LET at == TSub(S.c[c].cur, S.c[c].dlt)
        t  == TAdd(at, <<n, 0>>)
        A  == Play(S, <<<<"gen", c, n>>, <<"gen", c, 2>>>>)
        B  == Play(S, <<<<"gtt", c, t[1], t[2], 0>>, <<"gen", c, 2>>>>)
    IN Settled(S, c) /\ S.c[c].bt[2] = 0 => A.out = B.out /\ TickEvents(A.ev) = TickEvents(B.ev)
PastTime(S) ==
  \A c \in Contexts(S) :
    LET at == TSub(S.c[c].cur, S.c[c].dlt)
        T  == Step(S, <<"gtt", c, at[1], at[2], 0>>)
    IN T.out = <<>> /\ T.r = 0 /\ T.ev = <<>>

------------------------------------------------------------------------------
(* C08, C09: what units are mixed to *)

InFrame(v)  == v \in -32768..32767
OnlyUnits(S, c) == \A u \in Rng(S.c[c].us) : u \notin Ids(S.t) /\ ~S.u[u].cb
OrderFree(S) ==
  \A c \in Sounding(S) :
    LET R == [S EXCEPT !.c[c].us = Reverse(@)]
        A == Play(S, <<<<"gen", c, 6>>>>)
        B == Play(R, <<<<"gen", c, 6>>>>)
    IN (\A u \in Rng(S.c[c].us) : ~S.u[u].cb) => A.out = B.out
ChannelsApart(S) ==
  \A c \in {d \in Sounding(S) : S.c[d].nch > 1} :
    LET n   == S.c[c].nch
        Off(X, ch) == FoldLeft(LAMBDA Y, u: [Y EXCEPT !.u[u].vol[ch] = 0], X, S.c[c].us)
        A   == Frames(S, <<"gen", c, 5>>)
        B   == Frames(Off(S, n), <<"gen", c, 5>>)
    IN OnlyUnits(S, c) => \A j \in 1..5 : \A ch \in 1..n - 1 : A[(j - 1) * n + ch] = B[(j - 1) * n + ch]

Shape(wf, duty) ==
  CASE wf = 1 -> [p \in 0..15 |-> Square(duty, p)]
    [] wf = 2 -> [p \in 0..31 |-> Triangle(p)]
    [] wf = 4 -> [p \in 0..6 |-> Saw(p)]
    [] wf = 5 -> [p \in 0..31 |-> Sine(p)]
(* every waveform is complete: right number of high steps, two symmetric halves, falling steps *)
ShapeFacts ==
  /\ \A d \in 1..15 : Cardinality({p \in 0..15 : Shape(1, d)[p] # 0}) = d
  /\ \A d \in 1..15 : Cardinality({p \in 0..15 : (Shape(1, d)[p] # 0) # (Shape(1, d)[(p + 1) % 16] # 0)}) = 2
  /\ \A p \in 0..15 : Shape(5, 2)[p] = -Shape(5, 2)[p + 16]
  /\ \A wf \in {2, 5} : \A p \in 0..15 : Shape(wf, 2)[p] >= 0 /\ Shape(wf, 2)[p + 16] <= 0
  /\ \A h \in {0, 16} : \A p \in 0..7 : Shape(2, 2)[h + p] = Shape(2, 2)[h + 15 - p]
  /\ \A h \in {0, 16} : \A p \in 0..6 : Abs(Shape(2, 2)[h + p]) < Abs(Shape(2, 2)[h + p + 1])
  /\ \A h \in {0, 16} : \A p \in 1..7 : Shape(5, 2)[h + p] = Shape(5, 2)[h + 16 - p] /\ Abs(Shape(5, 2)[h + p]) < Abs(Shape(5, 2)[h + p + 1])
  /\ \A p \in 0..5 : Shape(4, 2)[p] > Shape(4, 2)[p + 1]
  /\ \A wf \in {1, 2, 4, 5} : \A p \in DOMAIN Shape(wf, 2) : Shape(wf, 2)[p] \in -MaxVol..MaxVol

(* a sounding unit takes one step per period and wraps at its number of phases *)
Wave(S, u) == S.u[u].wf \in {1, 2, 4, 5, 6} /\ S.u[u].per > 0 /\ S.u[u].mute = 0 /\ S.u[u].ctx # Null
              /\ \E ch \in 1..S.c[S.u[u].ctx].nch : S.u[u].vol[ch] # 0
StepsTaken(S, op, T) ==
  op[1] \in {"gen", "run", "crun"} /\ op[2] \in Contexts(S) /\ S.any = op[2] /\ Plain(S) =>
    \A u \in Rng(S.c[op[2]].us) :
      LET U == S.u[u]
          V == T.u[u]
          len == TAdd(TSub(V.time, T.c[op[2]].dlt), TSub(TAdd(T.c[op[2]].cur, T0), TSub(S.c[op[2]].cur, TSub(S.c[op[2]].dlt, U.time))))
          n   == (len[1] * (U20 \div 16) + len[2] \div 16) \div (U.per \div 16)
      IN Wave(S, u) /\ u \notin Ids(S.t) /\ U.wrap = 0 /\ U.per % 16 = 0 /\ len[1] < 2000 /\ U.time[2] % 16 = 0
           => V.phase = (U.phase + n) % U.cnt
PhaseInRange(S) == \A u \in Ids(S.u) : S.u[u].wf \in {0, 1, 2, 4, 5, 6} => S.u[u].phase \in 0..S.u[u].cnt - 1

------------------------------------------------------------------------------
(* C10: the noise register has one cycle through all values but 0 *)

NoiseFacts ==
  LET R == FoldLeft(LAMBDA a, i: LET r == NoiseNext(a.r) IN [r |-> r, early |-> a.early \/ (r = NoiseSeed /\ i < 65535), zero |-> a.zero \/ r = 0],
                    [r |-> NoiseSeed, early |-> FALSE, zero |-> FALSE], [i \in 1..65535 |-> i])
  IN R.r = NoiseSeed /\ ~R.early /\ ~R.zero
(* with a wrap the same steps come again after it *)
WrapFacts ==
  \A w \in {2, 3, 5, 16, 31} :
    LET U == [phase |-> 0, wrap |-> w, wc |-> w]
        v == NoiseSteps(U, 4 * w).v
        f == NoiseSteps([phase |-> 0, wrap |-> 0, wc |-> 0], w).v
    IN \A i \in 1..4 * w : v[i] = f[IF i < w THEN i ELSE ((i - w) % w) + 1]

------------------------------------------------------------------------------
(* C11: every attribute holds its value clamped, and only coupled ones move *)

TestValues == {0, 1, 2, 7, 15, 16, 40, 16384, 32767, 32768, 1048576, 50331648, 100663296, 100663297, 2147483647,
               -1, -2, -3, -16, -32767, -32768, -50331649, -2147483647}
Stored(a, v) ==
  CASE a \in {"VOLUME", "MASTER_VOLUME"} \cup DOMAIN VolIndex -> Clamp(v, 0, MaxVol)
    [] a = "PANNING"        -> Clamp(v, -MaxVol, MaxVol)
    [] a = "DUTY_CYCLE"     -> Clamp(v, 1, 15)
    [] a = "SAMPLE_PITCH"   -> Clamp(v, -48 * U20, 48 * U20)
    [] a = "MUTE"           -> Bool(v # 0)
    [] a = "SAMPLE_IMMED_RELEASE" -> Bool(v # 0)
    [] a = "TRIANGLE_IGNORES_VOLUME" -> Bool(v # 0)
    [] a = "PERIOD"         -> Abs(v)
    [] a = "PHASE_WRAP"     -> IF v = 0 THEN 0 ELSE Max2(v, 2)
    [] a = "SAMPLE_PERIOD"  -> Clamp(Abs(v), 4096, 268435456)
    [] a = "SAMPLE_REPEAT"  -> IF v \in 0..2 THEN v ELSE 0
    [] a \in {"ARPEGGIO_DIVIDER", "EFFECT_DIVIDER", "INSTRUMENT_DIVIDER"} -> v
UnitAttrs  == {"DUTY_CYCLE", "PERIOD", "PHASE_WRAP", "MUTE", "VOLUME_0", "VOLUME_7", "SAMPLE_PERIOD", "SAMPLE_REPEAT", "SAMPLE_IMMED_RELEASE"}
TrackAttrs == {"MASTER_VOLUME", "VOLUME", "PANNING", "SAMPLE_PITCH", "TRIANGLE_IGNORES_VOLUME", "ARPEGGIO_DIVIDER", "EFFECT_DIVIDER", "INSTRUMENT_DIVIDER"}
Coupled(a) == CASE a \in {"PHASE_WRAP", "DUTY_CYCLE"} -> {"PHASE"} [] OTHER -> {}
Shown(S, o)  == IF IsTrack(S, o) THEN ObsUnit \o ObsTrack ELSE ObsUnit
Attributes(S) ==
  \A o \in Ids(S.u) : \A a \in UnitAttrs \cup (IF IsTrack(S, o) THEN TrackAttrs ELSE {}) : \A v \in TestValues :
    LET T  == Step(S, <<"set", o, a, v>>)
        L  == Shown(S, o)
        b  == Values(S, o, L)
        e  == Values(T, o, L)
    IN /\ T.r = 0
       /\ GetAttr(T, o, a) = <<Stored(a, v)>>
       /\ \A j \in 1..Len(L) : L[j] = a \/ L[j] \in Coupled(a) \/ b[j] = e[j]
Unknown(S) == \A o \in Ids(S.u) : Step(S, <<"set", o, "NUM_FRAMES", 1>>).r = INVATTR /\ Step(S, <<"get", o, "NUM_FRAMES">>).r = INVATTR

------------------------------------------------------------------------------
(* C12: notes *)

Notes(S) ==
  \A t \in Ids(S.t) :
    /\ \A v \in {0, 60 * U20, 100 * U20} :
         LET T == Step(S, <<"set", t, "NOTE", v>>) IN
         /\ GetAttr(T, t, "NOTE") = <<Min2(v, 96 * U20)>> /\ T.u[t].mute = 0 /\ ~T.u[t].fR
         \* after a release or mute it does not glide
         /\ S.t[t].cur = NoteNone => SlideValue(T.t[t].note) = Min2(v, 96 * U20)
         \* while a note is held the instrument and the sample keep their place
         /\ S.t[t].cur # NoteNone => T.t[t].ist = S.t[t].ist /\ (S.u[t].wf = 7 => T.u[t].phase = S.u[t].phase)
    /\ LET T == Step(S, <<"set", t, "NOTE", -2>>) IN GetAttr(T, t, "NOTE") = <<-1>> /\ T.u[t].mute = 1
    /\ LET T == Step(S, <<"set", t, "NOTE", -1>>) IN
         /\ GetAttr(T, t, "NOTE") = <<-1>>
         /\ ~S.t[t].fI /\ ~S.u[t].fS => T.u[t].mute = 1

------------------------------------------------------------------------------
(* C13: slides arrive, on time, without overshooting *)

Between(v, a, b) == (a <= v /\ v <= b) \/ (b <= v /\ v <= a)
SlideRun(s, n)  == FoldLeft(LAMBDA a, i: LET x == SlideStep(a.s) IN [s |-> x, v |-> Append(a.v, SlideValue(x))], [s |-> s, v |-> <<SlideValue(s)>>], [i \in 1..n |-> i])
Arrives(s) ==
  LET v == SlideRun(s, s.step + 2).v
      e == Shr(s.end, s.vs)
      n == s.step
  IN n > 0 /\ n <= 40 =>
     /\ v[n + 1] = e /\ v[n + 2] = e /\ v[n + 3] = e
     /\ \A i \in 1..n : Between(v[i], v[1], e)
     /\ \A i \in 1..n : (v[1] <= e => v[i] <= v[i + 1]) /\ (v[1] >= e => v[i] >= v[i + 1])
(* what a new target or length does: leaves the present value, within the rounding of the old slide *)
SlidesOf(S) == UNION {{S.t[t].vol, S.t[t].pan, S.t[t].note} : t \in Ids(S.t)}
Slides(S) == \A s \in SlidesOf(S) : Arrives(s)
Jumps(S) == \A t \in Ids(S.t) : \A v \in {0, 100, MaxVol} :
              LET T == Step(Step(S, <<"eff", t, "EFFECT_VOLUME_SLIDE", 1, 0>>), <<"set", t, "VOLUME", v>>) IN SlideValue(T.t[t].vol) = v

------------------------------------------------------------------------------
(* C14: intervals swing between the peaks, four parts of equal length *)

IntervalRun(s, n) == FoldLeft(LAMBDA a, i: LET x == IntervalStep(a.s) IN [s |-> x, v |-> Append(a.v, IntervalValue(x)), p |-> Append(a.p, <<x.phase, x.step>>)],
                              [s |-> s, v |-> <<>>, p |-> <<>>], [i \in 1..n |-> i])
Swings(s) ==
  LET n == s.steps
      d == Shr(s.delta, s.vs)
      R == IntervalRun(s, 4 * n + 4)
      peak(p) == CASE p = 0 -> 0 [] p = 1 -> d [] p = 2 -> 0 [] p = 3 -> -d
  IN n > 0 /\ n <= 12 =>
     /\ \A i \in 1..4 * n + 4 : R.v[i] \in -Abs(d)..Abs(d)
     /\ \A i \in 1..4 * n + 4 : R.p[i][2] = 0 => R.v[i] = peak(R.p[i][1])
     /\ \A i \in 1..4 : R.p[i] = R.p[4 * n + i]
     /\ Cardinality({i \in 1..4 * n : R.p[i][2] = 0}) = 4
     /\ s.step < n
Intervals(S) == \A t \in Ids(S.t) : (S.t[t].eTrem => Swings(S.t[t].trem)) /\ (S.t[t].eVib => Swings(S.t[t].vib))

------------------------------------------------------------------------------
(* C15: the offset at every tick of a track follows the list *)

ArpRun(S, t, n) == FoldLeft(LAMBDA a, i: LET X == TrackTick(a.s, t) IN [s |-> X, v |-> Append(a.v, X.t[t].aDel)], [s |-> S, v |-> <<>>], [i \in 1..n |-> i])
Arpeggio(S) ==
  \A t \in Ids(S.t) :
    LET T == S.t[t]
        n == 2 * T.aCnt * T.aD + 3
        v == ArpRun(S, t, n).v
        at(j) == T.arp[((T.aOff + (j - T.aC) \div T.aD) % T.aCnt) + 1]
    IN T.fA /\ T.aD \in 1..6 /\ S.u[t].ctx # Null =>
       /\ T.aCnt \in 1..8 /\ T.aOff < T.aCnt
       /\ \A j \in 0..n - 1 : v[j + 1] = IF j < T.aC THEN T.aDel ELSE at(j)

------------------------------------------------------------------------------
(* C16, C17: sequences and envelopes from their definition *)

(* the value number j (from 0) of a held sequence, and behind its release *)
Held(q, j)     == LET e == q.so + q.sl
                      i == IF j < e THEN j ELSE IF q.sl = 0 THEN q.so ELSE q.so + ((j - q.so) % q.sl)
                  IN IF i < Len(q.v) THEN q.v[i + 1] ELSE q.v[Len(q.v)]
Released(q, j, held) == LET e == q.so + q.sl IN IF e >= Len(q.v) THEN held ELSE q.v[Min2(e + j, Len(q.v) - 1) + 1]
SeqRun(q, s, n) == FoldLeft(LAMBDA a, i: LET R == SeqStep(q, a.s, 1) IN [s |-> R.s, v |-> Append(a.v, R.s.val)], [s |-> s, v |-> <<>>], [i \in 1..n |-> i])
PlaysSequence(q) ==
  LET n == 2 * Len(q.v) + 3
      s == SeqPhase(q, SeqState0, 1).s
      v == SeqRun(q, s, n).v
      full == q.so >= Len(q.v)       \* no sustain: held to the end
  IN ~q.env /\ q.v # <<>> =>
     /\ s.val = Held(q, 0)
     /\ \A j \in 1..n : v[j] = IF full THEN q.v[Min2(j - 1, Len(q.v) - 1) + 1] ELSE Held(q, j - 1)
     /\ \A k \in 0..n :
          LET h == SeqRun(q, s, k).s
              r == SeqPhase(q, h, 2).s
              w == SeqRun(q, r, Len(q.v) + 2).v
          IN r.val = Released(q, 0, h.val) /\ \A j \in 1..Len(q.v) + 2 : w[j] = Released(q, j - 1, h.val)

(* an envelope: arrives at every point after its steps, moves straight, stays in its range *)
EnvRun(q, s, n) == FoldLeft(LAMBDA a, i: LET R == SeqStep(q, a.s, 1) IN [s |-> R.s, v |-> Append(a.v, R.s.val), o |-> Append(a.o, R.s)], [s |-> s, v |-> <<>>, o |-> <<>>], [i \in 1..n |-> i])
Spread(q, a) == LET all == Rng(q.v) \cup {a} IN [lo |-> CHOOSE x \in all : \A y \in all : x <= y, hi |-> CHOOSE x \in all : \A y \in all : x >= y]
(* the path through points `pts` from value a: one entry per step; a point without steps is there at once *)
Straight(q, pts, a) ==
  FoldLeft(LAMBDA X, i: [p |-> IF q.st[i] > 0 THEN X.p \o TLCEval([k \in 1..q.st[i] |-> [from |-> X.a, to |-> q.v[i], k |-> k, n |-> q.st[i]]])
                               ELSE IF X.p = <<>> THEN X.p
                               ELSE [X.p EXCEPT ![Len(X.p)] = [from |-> q.v[i], to |-> q.v[i], k |-> 1, n |-> 1]],
                         a |-> q.v[i]], [p |-> <<>>, a |-> a], pts).p
Near(v, e) == (e.k = e.n => v = e.to) /\ LET d == (v - e.from) * e.n - (e.to - e.from) * e.k IN d \in -2 * e.n..2 * e.n
PlaysEnvelope(q, start) ==
  LET s0 == [SeqState0 EXCEPT !.val = start, !.sv = start * Pow2(q.fs)]
      A  == SeqPhase(q, s0, 1)
      e  == q.so + q.sl
      held == q.so < Len(q.v)
      loop == [i \in 1..q.sl |-> q.so + i]
      pts  == [i \in 1..(IF held THEN e ELSE Len(q.v)) |-> i]
      long == Straight(q, pts \o (IF held THEN loop \o loop ELSE <<>>), start)
      \* how the last step of a sustained part ends is up to the next round
      path == IF held THEN SubSeq(long, 1, Len(long) - 1) ELSE long
      v    == EnvRun(q, A.s, Len(path)).v
      R    == Spread(q, start)
  IN q.env /\ EnvOk(q) /\ A.res # "fin" =>
     /\ \A j \in 1..Len(path) : Near(v[j], path[j])
     /\ \A j \in 1..Len(path) : v[j] \in R.lo..R.hi
     /\ \A k \in 0..Len(path) :
          LET h  == EnvRun(q, A.s, k).s
              L  == SeqPhase(q, h, 2)
              rest == [i \in 1..Len(q.v) - e |-> e + i]
              rp == Straight(q, rest, h.val)
              w  == EnvRun(q, L.s, Len(rp) + 2).v
          IN L.res # "fin" => (\A j \in 1..Len(rp) : Near(w[j], rp[j]) /\ w[j] \in R.lo..R.hi)
                              /\ (Len(rp) > 0 => w[Len(rp) + 1] = q.v[Len(q.v)] /\ w[Len(rp) + 2] = q.v[Len(q.v)])
(* sequences that just came into being *)
FreshSequences(op, T) ==
  IF T.r # 0 THEN {}
  ELSE CASE op[1] \in {"ins.seq", "ins.env"} -> Rng(T.i[op[2]].q[op[3] + 1])
         [] op[1] = "ins.adsr" -> Rng(T.i[op[2]].q[1])
         [] op[1] \in {"seq.new", "env.new"} /\ op[2] \in Ids(T.p) -> Rng(T.p[op[2]])
         [] OTHER -> {}
Brief(q) == FoldLeft(LAMBDA a, x: a + x, 0, q.st) <= 150 /\ \A i \in 1..Len(q.v) : Abs(q.v[i]) <= 1048576
PlaysSequences(op, T) == \A q \in FreshSequences(op, T) : PlaysSequence(q)
PlaysEnvelopes(op, T) == \A q \in FreshSequences(op, T) : q.env /\ q.v # <<>> /\ Brief(q) => \A a \in {q.v[1], q.v[Len(q.v)], 0} : PlaysEnvelope(q, a)
(* a track that plays an instrument stays within the values of its sequences; one that
   was released without having been attacked may find a sequence without anything left *)
InstrumentRange(S) ==
  \A t \in Ids(S.t) : \A n \in 1..4 :
    LET q == InsSeq(S, t, n)
        s == S.t[t].ist[n]
    IN q # NoSeq /\ S.t[t].iph # 0 =>
         LET R == Spread(q[1], IF n = 4 THEN S.t[t].duty ELSE 0)
         IN s.val \in R.lo..R.hi \/ (~q[1].env /\ s.off = Ended /\ s.val = SeqState0.val)

------------------------------------------------------------------------------
(* C19: only frames of the range are played *)

SampleInRange(S) ==
  \A u \in Ids(S.u) : LET U == S.u[u] IN
    U.wf = 7 /\ U.dat # Null =>
      LET n == S.x[U.dat].n IN
      /\ U.so = Min2(U.off, U.end) /\ U.len = Abs(U.end - U.off) /\ U.so + U.len <= n
      /\ U.len >= 2 /\ U.mute = 0 => U.phase \in 0..U.len - 1
      /\ U.fS => 0 <= U.sus0 /\ U.sus0 < U.sus1 /\ U.sus1 <= U.len
      /\ U.snc = S.x[U.dat].nch /\ (U.ctx # Null => U.snc = 1 \/ U.snc = S.c[U.ctx].nch)
      /\ Len(S.x[U.dat].frames) = n * U.snc

------------------------------------------------------------------------------
(* C20, C28: operations on one object leave the others alone *)

OthersKept(S, op, T) ==
  /\ op[1] \in DataOps /\ op[1] # "dat?" => \A x \in Ids(S.x) \ {op[2]} : [T.x[x] EXCEPT !.users = <<>>] = [S.x[x] EXCEPT !.users = <<>>]
  /\ op[1] \in InsOps => \A i \in Ids(S.i) \ {op[2]} : T.i[i].q = S.i[i].q
  /\ op[1] = "dat.copy" => LET A == T.x[op[2]]
                               B == S.x[op[3]]
                           IN A.n = B.n /\ A.nch = B.nch /\ A.frames = B.frames /\ A.sp = B.sp /\ A.sus = B.sus /\ A.users = <<>>
  /\ op[1] = "ins.copy" => T.i[op[2]].q = S.i[op[3]].q /\ T.i[op[2]].users = <<>>

(* after frames are replaced every user plays them from the start or is silent *)
Replacing == {"dat.frm", "dat.pat", "dat.raw", "dat.ldr", "dat.wav"}
Restarted(S, op, T) ==
  op[1] \in Replacing /\ T.r = 0 =>
    \A u \in Rng(S.x[op[2]].users) :
      \/ T.u[u].dat = op[2] /\ T.u[u].wf \in {6, 7} /\ T.u[u].phase = 0 /\ T.u[u].off = 0 /\ T.u[u].end = T.x[op[2]].n
      \/ T.u[u].dat = Null /\ T.u[u].wf \notin {6, 7}
Removed(S, op, T) ==
  (op[1] \in {"dat.det"} \/ (op[1] = "disp" /\ op[2] \in Ids(S.x))) /\ op[2] \in Ids(S.x) =>
    \A u \in Rng(S.x[op[2]].users) : T.u[u].dat = Null /\ T.u[u].wf \notin {6, 7}

------------------------------------------------------------------------------
(* C18: edits of an instrument reach all tracks that use it, and no others *)

EditedAll(S, op, T) ==
  op[1] \in {"ins.seq", "ins.env", "ins.adsr", "ins.det"} /\ T.r = 0 /\ op[2] \in Ids(S.i) =>
    /\ \A t \in Ids(S.t) \ Rng(S.i[op[2]].users) : T.t[t] = S.t[t] /\ T.u[t] = S.u[t]
    /\ op[1] = "ins.det" => \A t \in Rng(S.i[op[2]].users) : T.t[t].ins = Null /\ ~T.t[t].fI
    /\ op[1] # "ins.det" => \A t \in Rng(S.i[op[2]].users) : T.t[t].ins = op[2]

------------------------------------------------------------------------------
(* C21, C22: conversions *)

RawFacts ==
  /\ \A code \in {1, 2, 3} : LET b == BitsOf[code]
                                 per == 8 \div b
                                 F(byte) == RawFrames(<<byte>>, code, FALSE, per)
                             IN /\ F(0) = Rep(per, 0) /\ F(255) = Rep(per, 32767)
                                /\ \A i \in 1..per : F(Pow2(8 - b * i))[i] = 32767 \div (Pow2(b) - 1) /\ F(Pow2(8 - b * i))[(i % per) + 1] = 0
  /\ \A byte \in 0..254 : byte # 127 => RawFrames(<<byte>>, 4, FALSE, 1)[1] < RawFrames(<<byte + 1>>, 4, FALSE, 1)[1]
                                           \/ (byte = 128 /\ RawFrames(<<byte>>, 4, FALSE, 1)[1] <= RawFrames(<<byte + 1>>, 4, FALSE, 1)[1])
  /\ RawFrames(<<127, 129, 0>>, 4, FALSE, 3) = <<32767, -32767, 0>>
  /\ \A w \in {<<127, 255, 32767>>, <<128, 0, -32768>>, <<0, 1, 1>>, <<255, 255, -1>>} :
       RawFrames(<<w[1], w[2]>>, 6, TRUE, 1) = <<w[3]>> /\ RawFrames(<<w[2], w[1]>>, 6, FALSE, 1) = <<w[3]>>

(* whatever is written is read back *)
RoundTrip(start, nch, rate, bits, portions) ==
  LET junk == Rep(start, 7)
      F0   == [b |-> junk, pos |-> start, mode |-> "rw"]
      W0   == NewWriter("f", start, nch, rate, bits)
      all  == FoldLeft(LAMBDA a, p: a \o p, <<>>, portions)
      R    == FoldLeft(LAMBDA a, p: [f |-> AppendTo(a.w, a.f, p), w |-> [a.w EXCEPT !.hdr = TRUE, !.data = @ + Len(p) * (bits \div 8)]], [f |-> F0, w |-> W0], portions)
      F    == Terminated(R.w, R.f)
      H    == ParseHeader([F EXCEPT !.pos = start])
      v    == WaveFrames(F, H)
      size == Len(F.b) - start
  IN /\ SubSeq(F.b, 1, start) = junk
     /\ Long(F.b, start + 4) = size - 8 /\ Long(F.b, start + 40) = size - 44 /\ size = 44 + Len(all) * (bits \div 8)
     /\ Len(all) > 0 => /\ H.ok /\ H.nch = nch /\ H.rate = rate /\ H.n = Len(all) \div nch
                        /\ \A i \in 1..H.n * nch : v[i] = IF bits = 16 THEN all[i] ELSE (all[i] \div 256) * 256
Portions == {<<>>, <<<<0, 1>>>>, <<<<-32768, 32767>>, <<255, -1>>>>, <<<<256, -256>>, <<>>, <<127, 128, -129, 12345>>>>}
RoundTrips == \A start \in {0, 1, 5} : \A nch \in {1, 2} : \A rate \in {8000, 44100} : \A bits \in {8, 16} : \A p \in Portions : RoundTrip(start, nch, rate, bits, p)

(* C23: foreign and damaged files *)
PlainFile(nch, rate, bits, vals) ==
  LET W == NewWriter("f", 0, nch, rate, bits)
      F == AppendTo(W, [b |-> <<>>, pos |-> 0, mode |-> "rw"], vals)
  IN Terminated([W EXCEPT !.hdr = TRUE, !.data = Len(vals) * (bits \div 8)], F).b
FileOf(b)   == [b |-> b, pos |-> 0, mode |-> "r"]
ReadsAs(b)  == LET H == ParseHeader(FileOf(b)) IN IF H.ok THEN [nch |-> H.nch, rate |-> H.rate, n |-> H.n, v |-> WaveFrames(FileOf(b), H)] ELSE None
ReadsNot(b) == ~ParseHeader(FileOf(b)).ok
Splice(b, p, x) == SubSeq(b, 1, p) \o x \o SubSeq(b, p + 1, Len(b))
Patch(b, p, x)  == SubSeq(b, 1, p) \o x \o SubSeq(b, p + Len(x) + 1, Len(b))
Foreign(b, vals, w) ==
  LET chunk(n) == <<76, 73, 83, 84>> \o LE(4, n) \o Rep(n + (n % 2), 9)
      R == ReadsAs(b)
      \* a format chunk of 16 + n bytes
      ext(n) == Splice(Patch(b, 16, LE(4, 16 + n)), 36, Rep(n + (n % 2), 5))
  IN /\ R.n * R.nch = Len(vals)
     /\ \A n \in {0, 1, 2, 5, 8} : ReadsAs(Splice(b, 36, chunk(n))) = R /\ ReadsAs(Splice(b, 36, chunk(n) \o chunk(3))) = R
     /\ \A n \in {1, 2, 3, 8, 24} : ReadsAs(ext(n)) = R
     \* cut in the data: the frames that are there, then silence
     /\ \A t \in 44..Len(b) : ReadsAs(SubSeq(b, 1, t)) = [R EXCEPT !.v = [i \in 1..Len(R.v) |-> IF 44 + i * w <= t THEN R.v[i] ELSE 0]]
     /\ \A t \in 0..43 : ReadsNot(SubSeq(b, 1, t))
     \* not a WAVE file, not PCM, no channels, other sizes of frames
     /\ \A t \in {0, 1, 2, 3, 8, 9, 10, 11, 12, 13, 14, 15, 36, 37, 38, 39} : \A v \in {0, 33, 255} : ReadsNot(Patch(b, t, <<v>>))
     /\ \A f \in {0, 2, 3, 256, 65534} : ReadsNot(Patch(b, 20, LE(2, f)))
     /\ ReadsNot(Patch(b, 22, LE(2, 0)))
     /\ \A k \in {0, 1, 7, 12, 24, 32, 264} : ReadsNot(Patch(b, 34, LE(2, k)))
     /\ \A k \in {0, 1, 15} : ReadsNot(Patch(b, 16, LE(4, k)))
     \* what follows the data does not matter, nor do the sizes which follow from others
     /\ ReadsAs(b \o chunk(4)) = R
     /\ \A t \in {4, 28, 32} : \A v \in {0, 255} : ReadsAs(Patch(b, t, <<v>>)) = R
ForeignFiles ==
  /\ Foreign(PlainFile(1, 8000, 16, <<1, -1, 300, -32768, 32767>>), <<1, -1, 300, -32768, 32767>>, 2)
  /\ Foreign(PlainFile(2, 44100, 8, <<256, -256, 0, 32512, -32768, 512>>), <<256, -256, 0, 32512, -32768, 512>>, 1)
  /\ Foreign(PlainFile(3, 96000, 16, <<1, 2, 3, 4, 5, 6>>), <<1, 2, 3, 4, 5, 6>>, 2)

------------------------------------------------------------------------------
(* C24: reset and the same settings again give a state that renders like new *)

LikeNew(S, New, c, again) ==
  LET A == Play(Step(S, <<"ctx.rst", c>>), again)
      B == Play(New, again)
  IN Same(A, B)

------------------------------------------------------------------------------
(* C25: volumes stay in their range, the far side is never louder than the near one *)

VolumeBounds(S) ==
  \A t \in Ids(S.t) :
    LET T == TrackVolume(S, t)
        l == T.u[t].vol[1]
        r == T.u[t].vol[2]
        pan == SlideValue(S.t[t].pan) + (IF S.t[t].fI THEN S.t[t].ist[2].val ELSE 0)
        top == TrackVolume([S EXCEPT !.t[t].mvol = MaxVol], t)
        chs == IF S.t[t].fP THEN 1..2 ELSE 1..8   \* panning is for two channels
    IN /\ \A ch \in chs : T.u[t].vol[ch] \in 0..S.t[t].mvol
       /\ \A ch \in chs : T.u[t].vol[ch] <= top.u[t].vol[ch]
       /\ ~S.t[t].fP \/ pan = 0 => \A ch \in 2..8 : T.u[t].vol[ch] = l
       /\ S.t[t].fP /\ pan > 0 => l <= r
       /\ S.t[t].fP /\ pan < 0 => r <= l
       /\ S.t[t].fP /\ pan >= MaxVol => l = 0
       /\ S.t[t].fP /\ pan <= -MaxVol => r = 0
       /\ SlideValue(S.t[t].vol) = 0 => l = 0 /\ r = 0

------------------------------------------------------------------------------
(* C26: higher notes never have longer periods, an octave halves them *)

Rates == {16000, 22050, 44100, 48000, 96000}
PitchFacts ==
  /\ \A rate \in Rates : \A p \in 0..95 : \A f \in {0, 16, 1000, 524288, 1048560} :
       /\ TonePeriod(p * U20 + f, rate) >= TonePeriod(p * U20 + f + 16, rate)
       /\ TonePeriod(p * U20 + f, rate) > TonePeriod((p + 1) * U20 + f, rate) \/ p = 95
  /\ \A rate \in Rates : \A p \in 0..84 : LET a == TonePeriod(p * U20, rate)
                                             b == TonePeriod((p + 12) * U20, rate)
                                         IN Abs(a - 2 * b) <= 2 * rate
  /\ \A rate \in Rates : TonePeriod(-5, rate) = TonePeriod(0, rate) /\ TonePeriod(200 * U20, rate) = TonePeriod(96 * U20, rate)
  /\ \A p \in 0..95 : \A f \in {0, 4096, 524288, 1044480} : Log2Period(p * U20 + f) <= Log2Period(p * U20 + f + 4096)
  /\ \A p \in 0..84 : Abs(Log2Period((p + 12) * U20) - 2 * Log2Period(p * U20)) <= 2 + Log2Period(p * U20) \div 5000
  /\ Log2Period(48 * U20) = U20

------------------------------------------------------------------------------
(* C31: objects of two sides that share nothing do not influence each other: a  *)
(* step on one side gives what it gives without the other side and leaves the   *)
(* other side alone                                                             *)

Kinds == {"c", "k", "d", "u", "t", "i", "x", "f", "w", "q", "p", "b", "s", "l", "v", "m.c", "d.t"}
Named(lo, hi) == {k \o ToString(n) : k \in Kinds, n \in lo..hi}
SideA == Named(1, 49)
SideB == Named(51, 99)
Only(f, side) == [o \in DOMAIN f \cap side |-> f[o]]
Part(S, side) ==
  [S EXCEPT !.c = Only(@, side), !.k = Only(@, side), !.d = Only(@, side), !.u = Only(@, side), !.t = Only(@, side),
            !.i = Only(@, side), !.x = Only(@, side), !.f = Only(@, side), !.w = Only(@, side), !.q = Only(@, side), !.p = Only(@, side)]
Things(S) == <<S.c, S.k, S.d, S.u, S.t, S.i, S.x, S.f, S.w, S.q, S.p>>
Apart(S, op, T) ==
  op[1] \notin {"bal", "name", "fail", "nalloc", "tone", "log2", "tmk", "tcmp"} /\ Len(op) > 1 =>
    LET mine  == IF op[2] \in SideA THEN SideA ELSE SideB
        other == IF op[2] \in SideA THEN SideB ELSE SideA
        R     == Step(Part(S, mine \cup {S.any}), op)   \* callbacks of dividers report the time of context S.any
    IN /\ Things(Part(T, other)) = Things(Part(S, other))
       /\ Things(Part(T, mine)) = Things(Part(R, mine))
       /\ R.r = T.r /\ R.out = T.out /\ R.ev = T.ev

------------------------------------------------------------------------------
(* C32: times are ordered, and sums and differences are exact *)

IsSum(s, a, b)  == /\ s[2] \in 0..(U20 - 1)
                   /\ LET carry == s[1] - a[1] - b[1] IN carry \in 0..1 /\ a[2] + b[2] = s[2] + carry * U20
TimeLaws(op, T) ==
  LET o == T.out
  IN CASE op[1] = "tcmp" ->
            LET a == <<op[2], op[3]>>
                b == <<op[4], op[5]>>
                w == <<o[10], o[11]>>
            IN /\ {o[i] : i \in {1, 2, 3, 4, 5, 16, 17}} \subseteq {0, 1}
               /\ o[1] + o[3] + o[4] = 1 /\ o[2] = o[1] + o[3] /\ o[5] = o[4] + o[3]
               /\ IsSum(<<o[6], o[7]>>, a, b)
               /\ IsSum(a, <<o[8], o[9]>>, b)
               /\ o[1] = 1 <=> o[8] < 0
               /\ o[3] = 1 <=> o[8] = 0 /\ o[9] = 0
               /\ w[1] \in 0..4095 /\ w[2] = b[2] /\ (b[1] - w[1]) % 4096 = 0
               /\ IsSum(<<o[12], o[13]>>, a, w)
               /\ IsSum(a, <<o[14], o[15]>>, w)
               /\ o[16] = 1 <=> o[14] < 0
               /\ o[17] = 1 <=> o[14] > 0 \/ (o[14] = 0 /\ o[15] > 0)
       [] op[1] = "tmk" -> /\ o[2] \in 0..(U20 - 1) /\ o[3] = o[1] /\ o[4] = o[2] /\ o[6] = o[2]
                           /\ (o[1] - op[2]) * U20 = op[3] - o[2]
                           /\ o[5] \in 0..4095 /\ (o[1] - o[5]) % 4096 = 0
       (* x/y seconds are rate * x / y samples: the next fraction would be too late *)
       [] op[1] = "tsec" -> LET r == T.c[op[2]].rate
                                n == (r * op[3]) - o[1] * op[4]
                            IN o[2] \in 0..(U20 - 1) /\ n >= 0 /\ n < op[4] /\ o[2] * op[4] <= n * U20 /\ n * U20 < (o[2] + 1) * op[4]
       [] OTHER -> TRUE

------------------------------------------------------------------------------
(* everything by property *)

StateHolds(p, S) ==
  CASE p = "C01" -> NoneMissed(S)
    [] p \in {"C05", "C06"} -> Membership(S) /\ ~Dangling(S) /\ Users(S)
    [] p \in {"C18", "C20"} -> Users(S) /\ ~Dangling(S)
    [] p = "C09" -> PhaseInRange(S)
    [] p = "C13" -> Slides(S)
    [] p = "C14" -> Intervals(S)
    [] p = "C15" -> Arpeggio(S)
    [] p = "C16" -> InstrumentRange(S)
    [] p = "C19" -> SampleInRange(S)
    [] p = "C25" -> VolumeBounds(S)
    [] OTHER -> TRUE

(* the costly ones, which render further from the state *)
DeepHolds(p, S) ==
  CASE p \in {"C02", "C07", "C08", "C27"} /\ ~Quiet(S) -> TRUE
    [] p = "C02" -> SplitSame(S)
    [] p = "C07" -> RunAndRead(S)
    [] p = "C08" -> OrderFree(S) /\ ChannelsApart(S)
    [] p = "C11" -> Attributes(S) /\ Unknown(S)
    [] p = "C12" -> Notes(S)
    [] p = "C13" -> Jumps(S)
    [] p = "C27" -> ToTime(S) /\ PastTime(S)
    [] OTHER -> TRUE

StepHolds(p, S, op, T) ==
  /\ Refused(S, op, T)
  /\ CASE p \in {"C01", "C03", "C04"} -> OnSchedule(S, op, T)
       [] p \in {"C07"} -> Accounting(S, op, T)
       [] p = "C08" -> \A i \in 1..Len(T.out) : op[1] \in {"gen", "read"} => InFrame(T.out[i])
       [] p = "C09" -> StepsTaken(S, op, T)
       [] p = "C16" -> PlaysSequences(op, T)
       [] p = "C17" -> PlaysEnvelopes(op, T)
       [] p = "C18" -> EditedAll(S, op, T)
       [] p = "C20" -> Restarted(S, op, T) /\ Removed(S, op, T)
       [] p = "C28" -> OthersKept(S, op, T)
       [] p = "C31" -> Apart(S, op, T)
       [] p = "C32" -> TimeLaws(op, T)
       [] OTHER -> TRUE

(* facts without states *)
Facts(p) ==
  CASE p = "C09" -> ShapeFacts
    [] p = "C10" -> NoiseFacts /\ WrapFacts
    [] p = "C21" -> RawFacts
    [] p = "C22" -> RoundTrips
    [] p = "C23" -> ForeignFiles
    [] p = "C26" -> PitchFacts
    [] OTHER -> TRUE
=============================================================================
