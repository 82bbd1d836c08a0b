-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* How requests may overlap.  A request passes Gates points at which the    *)
(* processor may be given to another one; on its way it looks at a          *)
(* credential (at point 'look') and, depending on its kind, acts on what it *)
(* saw (at point 'act').  Two designs:                                      *)
(*   whole  one lock from the first point to the last (what the server does)*)
(*   steps  only each access on its own is atomic                           *)
(* Whole must be linearizable under every schedule; steps is not, which     *)
(* shows that the schedules are strong enough to tell.  The schedules of    *)
(* 'steps' with at most Switches preemptions are what the driver then       *)
(* imposes on the real requests: every attempt to interleave them, whether  *)
(* or not a lock stands in its way.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Num(s) == CHOOSE n \in 0..99 : ToString(n) = s
N == Num(IOEnv.PARTS)
Gates == Num(IOEnv.GATES)
Switches == Num(IOEnv.SWITCHES)
Emit == IOEnv.EMIT = "yes"

Part == 1..N
Kinds == {"take", "see", "void"}
All == 1000     \* a segment that lasts until the request is done

VARIABLES design, kind, look, act,   \* chosen in the beginning
          pos, holder, saw, live, ans, \* the requests and the credential
          cur, left, script           \* the schedule so far

vars == <<design, kind, look, act, pos, holder, saw, live, ans, cur, left, script>>

Init ==
  /\ design \in (IF Emit THEN {"steps"} ELSE {"whole", "steps"})
  /\ kind \in (IF Emit THEN {[i \in Part |-> "take"]} ELSE [Part -> Kinds])
  /\ look \in (IF Emit THEN {1} ELSE 1..Gates - 1)
  /\ act \in (IF Emit THEN {Gates} ELSE {a \in 2..Gates : a > look})
  /\ pos = [i \in Part |-> 0]
  /\ holder = 0
  /\ saw = [i \in Part |-> FALSE]
  /\ live = TRUE
  /\ ans = [i \in Part |-> ""]
  /\ cur \in Part
  /\ left = Switches
  /\ script = IF Emit THEN <<<<cur, 0>>>> ELSE <<>>

Done(i) == pos[i] = Gates
Locked(i) == design = "whole" /\ pos[i] = 0 /\ holder # 0
Can(i) == ~Done(i) /\ ~Locked(i)

\* one point further
Step ==
  LET p == pos[cur] + 1 IN
  /\ Can(cur)
  /\ pos' = [pos EXCEPT ![cur] = p]
  /\ holder' = IF design # "whole" THEN 0 ELSE IF p = Gates THEN 0 ELSE cur
  /\ saw' = IF p = look THEN [saw EXCEPT ![cur] = live] ELSE saw
  /\ LET s == IF p = look THEN live ELSE saw[cur] IN
     /\ live' = IF p = act /\ ((kind[cur] = "take" /\ s) \/ kind[cur] = "void") THEN FALSE ELSE live
     /\ ans' = IF p # act THEN ans
               ELSE [ans EXCEPT ![cur] = IF kind[cur] = "void" THEN "ok" ELSE IF s THEN "ok" ELSE "no"]
  /\ script' = IF Emit
               THEN [script EXCEPT ![Len(script)] = <<cur, IF p = Gates THEN All ELSE @[2] + 1>>]
               ELSE script
  /\ UNCHANGED <<design, kind, look, act, cur, left>>

To(j) == cur' = j /\ script' = IF Emit THEN Append(script, <<j, 0>>) ELSE script

\* the processor is taken away from a request that could go on
Preempt ==
  /\ left > 0 /\ Can(cur) /\ pos[cur] > 0
  /\ \E j \in Part \ {cur} : ~Done(j) /\ To(j)
  /\ left' = left - 1
  /\ UNCHANGED <<design, kind, look, act, pos, holder, saw, live, ans>>

\* nothing else can be done
Yield ==
  /\ ~Can(cur)
  /\ \E j \in Part \ {cur} : Can(j) /\ To(j)
  /\ UNCHANGED <<design, kind, look, act, pos, holder, saw, live, ans, left>>

Over == \A i \in Part : Done(i)
Next == Step \/ Preempt \/ Yield \/ (Over /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

(* The answers that requests get one at a time, in the order f. *)
RECURSIVE Alone(_, _, _)
Alone(f, n, l) ==
  IF n > N THEN {}
  ELSE LET i == f[n] IN
       {<<i, IF kind[i] = "void" \/ l THEN "ok" ELSE "no">>} \cup Alone(f, n + 1, l /\ kind[i] = "see")
Orders == {f \in [Part -> Part] : \A i, j \in Part : i # j => f[i] # f[j]}
Linear == \E f \in Orders : Alone(f, 1, TRUE) = {<<i, ans[i]>> : i \in Part}
Taken == Cardinality({i \in Part : kind[i] = "take" /\ ans[i] = "ok"})

WholeIsLinear == design = "whole" /\ Over => Linear
OnlyOnce == design = "whole" => Taken <= 1
NoneIsStuck == Over \/ \E i \in Part : Can(i)
LockIsFree == Over => holder = 0

Show ==
  IF Emit THEN Over => PrintT(ToJson([x |-> "SCHEDULE", s |-> script]))
  ELSE design # "whole" /\ Over /\ ~Linear /\ act = look + 1 /\ look = 1 /\ kind = [i \in Part |-> "take"]
       => PrintT(ToJson([x |-> "HARM", t |-> Taken]))
=============================================================================
