------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* The judge: steps the specification along traces recorded from the       *)
(* implementation.  Every line of the file is one trace: its configuration *)
(* and its events.  Every trace is one initial state, so traces are judged *)
(* in parallel; every event is one step.  For each event the properties    *)
(* that it breaks are printed; an event after which the state of the       *)
(* implementation is unknown ends the trace.                               *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)
Ask == IOEnv.ASK        \* "all" or one property

VARIABLES tid, i, st, run

vars == <<tid, i, st, run>>

Q(e) == e.q @@ NullReq
O(e) == e.o @@ NullOut

Init == /\ tid \in 1..Len(Traces)
        /\ i = 0
        /\ st = InitState @@ [cause |-> {}, used |-> {}]
        /\ run = TRUE

Asked(cfg, s, q, o) == IF Ask = "all" THEN Failing(cfg, s, q, o)
                       ELSE {p \in {Ask} : ~Holds(p, cfg, s, q, o)}
Say(x) == PrintT(ToJson(x))

Observe(cfg, s, q, o) ==
  LET s1 == Effect(cfg, s, q, o) IN
  [s1 EXCEPT !.cause = IF IsSnap(q) THEN (IF SnapOk(s, q, o) THEN {} ELSE @)
                       ELSE @ \cup {CauseOf(cfg, s, q, o)},
             !.used = @ \cup {o.bytes[k] : k \in 1..Len(o.bytes)}]

Step ==
  /\ run
  /\ i < Len(Traces[tid].ev)
  /\ LET e   == Traces[tid].ev[i + 1]
         \* the registered clients and users may change on the way
         cfg == IF "c" \in DOMAIN e THEN Traces[tid].cfgs[e.c] ELSE Traces[tid].cfg
         q   == Q(e)
         o   == O(e)
         ok  == Conforms(cfg, st, q, o)
         bad == Asked(cfg, st, q, o)
         go  == Trackable(cfg, st, q, o)
     IN /\ IF ok /\ bad = {} THEN TRUE
           ELSE Say([x |-> "DEV", t |-> tid, i |-> i + 1, ok |-> ok, bad |-> bad, go |-> go])
        /\ st' = IF go THEN Observe(cfg, st, q, o) ELSE st
        /\ run' = go
        /\ i' = i + 1
        /\ IF ~go \/ i + 1 = Len(Traces[tid].ev) THEN Say([x |-> "END", t |-> tid, i |-> i + 1]) ELSE TRUE
        /\ UNCHANGED tid

Spec == Init /\ [][Step]_vars
=============================================================================
