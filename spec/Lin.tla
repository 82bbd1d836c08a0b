-------------------------------- MODULE Lin ---------------------------------
(***************************************************************************)
(* The judge of overlapping requests (C17).  A history recorded from the   *)
(* implementation contains, besides single events, batches: sets of        *)
(* requests that overlapped, each with its answer and with the set pre of  *)
(* those that were over before it began.  The answers and everything that  *)
(* was observed afterwards must be those of some order, one at a time,     *)
(* that respects pre.  TLC searches all orders: a behaviour that reaches   *)
(* the end of a history is such an order, and prints END.  FAR tells how   *)
(* far into a history some order gets.                                     *)
(***************************************************************************)
EXTENDS Props, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACES)

VARIABLES tid, i, over, st

vars == <<tid, i, over, st>>

Say(x) == PrintT(ToJson(x))
Q(e) == e.q @@ NullReq
O(e) == e.o @@ NullOut

Init == /\ tid \in 1..Len(Traces)
        /\ i = 0
        /\ over = {}
        /\ st = InitState

\* an answer that the specification gives in the present state
Admitted(cfg, q, o) == Conforms(cfg, st, q, o) /\ Trackable(cfg, st, q, o)

Done(n) == /\ i' = i + 1
           /\ over' = {}
           /\ Say([x |-> IF n = Len(Traces[tid].ev) THEN "END" ELSE "FAR", t |-> tid, i |-> n])

Step ==
  /\ i < Len(Traces[tid].ev)
  /\ UNCHANGED tid
  /\ LET cfg == Traces[tid].cfg
         e   == Traces[tid].ev[i + 1]
     IN IF "par" \in DOMAIN e
        THEN \E k \in (1..Len(e.par)) \ over :
               LET x == e.par[k] IN
               /\ {x.pre[j] : j \in 1..Len(x.pre)} \subseteq over
               /\ Admitted(cfg, Q(x), O(x))
               /\ st' = Effect(cfg, st, Q(x), O(x))
               /\ IF over \cup {k} = 1..Len(e.par) THEN Done(i + 1)
                  ELSE i' = i /\ over' = over \cup {k}
        ELSE /\ Admitted(cfg, Q(e), O(e))
             /\ st' = Effect(cfg, st, Q(e), O(e))
             /\ Done(i + 1)

Spec == Init /\ [][Step]_vars
=============================================================================
