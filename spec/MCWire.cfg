SPECIFICATION Spec
INVARIANT Prop
CHECK_DEADLOCK FALSE
