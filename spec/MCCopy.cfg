SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Inv Faithful Canonical NotSilent Behind
CONSTANT Aspects = {}
