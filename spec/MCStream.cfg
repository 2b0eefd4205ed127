SPECIFICATION Spec
VIEW View
CHECK_DEADLOCK FALSE
INVARIANT Inv FieldView Cut Sticky DepthOk SkipOk ResumeOk PosOk RoundTrip CommittedOk FixedOk
