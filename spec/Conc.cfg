SPECIFICATION Spec
INVARIANTS WholeIsLinear OnlyOnce NoneIsStuck LockIsFree Show
