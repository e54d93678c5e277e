------------------------------- MODULE Explore -------------------------------
(* All behaviours of bounded length over small alphabets of operations. CONF   *)
(* names a file with a list of configurations:                                 *)
(*   setup  operations every behaviour starts with                             *)
(*   levels alphabets; a behaviour takes one entry of each in turn             *)
(*   after  entries that follow every choice                                   *)
(*   close  entries behind the last choice                                     *)
(*   fresh, again  (C24) a new context to compare a reset one with, and the    *)
(*          operations both are put through                                    *)
(* An entry is a list of operations with the objects that have to be there     *)
(* (need) and those that must not (free); entries that do not apply are        *)
(* skipped. Every behaviour is checked against the declarative form of         *)
(* property PROP and printed with the results the specification demands, to be *)
(* replayed on the implementation.                                             *)
EXTENDS BKProps, Json, IOUtils

Confs == JsonDeserialize(IOEnv.CONF)
Prop  == IOEnv.PROP

VARIABLES cid,   \* configuration
          h,     \* choices so far
          S,     \* state of the specification
          log,   \* operations and results so far
          held   \* every step was one the property allows
vars == <<cid, h, S, log, held>>

Objects(X) == DOMAIN X.c \cup DOMAIN X.k \cup DOMAIN X.d \cup DOMAIN X.u \cup DOMAIN X.t \cup DOMAIN X.i \cup DOMAIN X.x
              \cup DOMAIN X.p \cup DOMAIN X.f \cup DOMAIN X.w \cup DOMAIN X.q
Legal(X, e) == Rng(e.need) \subseteq Objects(X) /\ Rng(e.free) \cap Objects(X) = {}

(* after `fail` memory is refused to the operations that need it; "oom" stands for any error *)
One(a, op) ==
  IF op[1] = "fail" THEN [a EXCEPT !.oom = op[2] > 0, !.log = Append(@, <<op, 0, <<>>, <<>>>>)]
  ELSE IF a.oom /\ NeedsMemory(a.s, op) THEN [a EXCEPT !.s = Failed(@), !.log = Append(@, <<op, "oom", <<>>, <<>>>>)]
  ELSE LET T == Step(a.s, op) IN [a EXCEPT !.s = T, !.log = Append(@, <<op, T.r, T.out, T.ev>>), !.held = @ /\ StepHolds(Prop, a.s, op, T)]
At(s, lg, hd) == [s |-> s, log |-> lg, held |-> hd, oom |-> FALSE]
Ops(a, ops) == FoldLeft(One, a, ops)
Entries(a, es) == FoldLeft(LAMBDA b, e: IF Legal(b.s, e) THEN Ops(b, e.ops) ELSE b, a, es)

Begin(c) == Ops(At(Init0, <<>>, TRUE), Confs[c].setup)
Depth(c)  == Len(Confs[c].levels)

Init == /\ cid \in 1..Len(Confs)
        /\ h = <<>>
        /\ LET a == Begin(cid) IN S = a.s /\ log = a.log /\ held = a.held

Next == LET C == Confs[cid]
            n == Len(h) + 1
        IN /\ n <= Depth(cid)
           /\ \E i \in 1..Len(C.levels[n]) :
                LET e == C.levels[n][i]
                    a == Entries(Ops(At(S, log, held), e.ops), C.after)
                    z == IF n = Depth(cid) THEN Entries(a, C.close) ELSE a
                IN /\ Legal(S, e)
                   /\ S' = z.s /\ log' = z.log /\ held' = z.held
                   /\ n = Depth(cid) => PrintT(<<"PATH", cid, ToJson(z.log)>>)
                   /\ h' = Append(h, i)
           /\ UNCHANGED cid

Spec == Init /\ [][Next]_vars
View == <<cid, h>>

StepsHeld == held
States    == StateHolds(Prop, S)
Deep      == Confs[cid].deep => DeepHolds(Prop, S)
Renewed   == Prop = "C24" /\ Confs[cid].fresh # <<>> /\ Len(h) > 0 =>
               LikeNew(S, Ops(At(Init0, <<>>, TRUE), Confs[cid].fresh).s, "c1", Confs[cid].again)
ASSUME Facts(Prop)
=============================================================================
