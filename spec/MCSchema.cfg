SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT RtOk PrefixOk StrictOk AcceptOk PathOk LimitOk CompatOk KeepOk ZcOk
