-------------------------------- MODULE Trace --------------------------------
(* Are recorded traces of the implementation behaviours of the specification? *)
(* TRACES names a file with one scenario per line:                             *)
(*   {"ops": [op, ...], "res": [[r, x, ev], ...]}                              *)
(* Every scenario is one initial state; a state has one successor while the    *)
(* recorded result of the next operation is the one the specification demands. *)
(* PROP is the property whose declarative form every state and step of the     *)
(* specification has to satisfy on the way.                                    *)
EXTENDS BKProps, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Prop   == IOEnv.PROP

VARIABLES tid,   \* scenario
          l,     \* operations validated
          S,     \* state of the reference model
          st,    \* "ok", or "bad" behind a result the specification does not allow
          held   \* the last step was one the property allows

vars == <<tid, l, S, st, held>>

TraceInit == tid \in 1..Len(Traces) /\ l = 0 /\ S = Init0 /\ st = "ok" /\ held = TRUE

(* an operation in which an allocation was made to fail reports an error and changes nothing *)
TraceNext ==
  /\ st = "ok"
  /\ l < Len(Traces[tid].ops)
  /\ LET op  == Traces[tid].ops[l + 1]
         res == Traces[tid].res[l + 1]
         inj == Len(res) > 3
         N   == IF inj THEN S ELSE Step(S, op)
         good == IF inj THEN res[1] < 0 ELSE N.r = res[1] /\ N.out = res[2] /\ N.ev = res[3]
     IN /\ S' = IF good THEN N ELSE S
        /\ held' = (good /\ ~inj => StepHolds(Prop, S, op, N))
        /\ st' = IF good THEN "ok"
                 ELSE IF PrintT(<<"MISMATCH", tid, l + 1, ToJson([r |-> N.r, x |-> N.out, ev |-> N.ev])>>) THEN "bad" ELSE "bad"
  /\ l' = l + 1
  /\ UNCHANGED tid

TraceSpec == TraceInit /\ [][TraceNext]_vars
TraceView == <<tid, l, st>>

Declared == held /\ (st = "ok" => StateHolds(Prop, S) /\ ((l + tid) % 9 = 0 => DeepHolds(Prop, S)))
=============================================================================
