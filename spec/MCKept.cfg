SPECIFICATION Spec
VIEW view
CHECK_DEADLOCK FALSE
INVARIANTS Kept Total NoTrace Atomic
