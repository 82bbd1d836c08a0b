SPECIFICATION Spec
VIEW view
CHECK_DEADLOCK FALSE
INVARIANTS OnlyOnce ReplayKills DeadStaysDead Lineage Emitted
